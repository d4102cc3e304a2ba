// Independent reference for the Arrow columnar format and the Arrow C data interface:
//  - decode():   (ArrowSchema, ArrowArray, i) -> canonical text of logical element i, by the format alone
//  - validate(): structural validity of an exported pair ("" or the first problem)
//  - FNode:      builder of foreign (non sparrow) structures with spec-conformant, counted release callbacks
// Only the C struct definitions are taken from sparrow.
#pragma once
#include "vp.hpp"
#include <sparrow/c_interface.hpp>
#include <cmath>
#include <cstring>
#include <memory>
#include <optional>
#include <sanitizer/asan_interface.h>
#include <string>
#include <string_view>
#include <vector>

namespace ar
{
    using Strs = std::vector<std::string>;

    // ------------------------------------------------------------------ canonical text
    inline std::string null_() { return "~"; }
    inline std::string text(std::string_view s)
    {
        std::string r = "s'";
        for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\'' && c != '\\') r += char(c); else { char b[8]; snprintf(b, sizeof b, "\\%02x", c); r += b; } }
        return r + "'";
    }
    inline std::string bytes(const void* p, std::size_t n)
    {
        std::string r = "y";
        auto b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i) { char x[4]; snprintf(x, sizeof x, "%02x", b[i]); r += x; }
        return r;
    }
    inline std::string real(char tag, double d)
    {
        char b[64];
        if (std::isnan(d)) snprintf(b, sizeof b, "%cnan", tag); else snprintf(b, sizeof b, "%c%a", tag, d);
        return b;
    }
    template <class T> constexpr char tag_of()
    {
        if constexpr (std::is_same_v<T, bool>) return 'b';
        else if constexpr (std::is_floating_point_v<T>) return sizeof(T) == 4 ? 'f' : 'g';
        else return (std::is_signed_v<T> ? "cs?i???l" : "CS?I???L")[sizeof(T) - 1];
    }
    inline std::string num(char tag, long long v) { return std::string(1, tag) + std::to_string(v); }
    inline std::string unum(char tag, unsigned long long v) { return std::string(1, tag) + std::to_string(v); }
    template <class T> std::string prim(T v)
    {
        if constexpr (std::is_floating_point_v<T>) return real(tag_of<T>(), v);
        else if constexpr (std::is_same_v<T, bool>) return v ? "b1" : "b0";
        else if constexpr (std::is_signed_v<T>) return num(tag_of<T>(), v);
        else return unum(tag_of<T>(), v);
    }
    inline double half(std::uint16_t h)
    {
        int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
        double v = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) : std::ldexp(1024 + m, e - 25);
        return s ? -v : v;
    }
    inline std::string join(const Strs& v)
    {
        std::string r;
        for (auto& s : v) r += s + " ";
        return r;
    }

    // ------------------------------------------------------------------ decoding
    template <class T> T rd(const void* base, std::int64_t i)
    {
        T t; std::memcpy(&t, static_cast<const char*>(base) + i * std::int64_t(sizeof(T)), sizeof(T)); return t;
    }
    inline bool bit(const void* base, std::int64_t i) { return (static_cast<const unsigned char*>(base)[i / 8] >> (i % 8)) & 1; }

    inline std::vector<int> union_ids(std::string_view f)
    {
        std::vector<int> r; int v = -1;
        for (char c : f.substr(4)) { if (c == ',') { r.push_back(v); v = -1; } else v = (v < 0 ? 0 : v) * 10 + (c - '0'); }
        if (v >= 0) r.push_back(v);
        return r;
    }
    inline bool has_validity(std::string_view f)
    {
        return !(f == "n" || f.substr(0, 4) == "+ud:" || f.substr(0, 4) == "+us:" || f == "+r");
    }
    // width of the fixed width formats that are shown as bytes, 0 for the others
    inline std::int64_t byte_width(std::string_view f)
    {
        if (f.substr(0, 2) == "w:") return std::stoll(std::string(f.substr(2)));
        if (f.substr(0, 2) == "d:")
        {
            auto c = f.find(',', f.find(',') + 1);
            return c == std::string_view::npos ? 16 : std::stoll(std::string(f.substr(c + 1))) / 8;
        }
        if (f.size() > 1 && f[0] == 't') return f == "tdD" || f == "tts" || f == "ttm" || f == "tiM" ? 4 : f == "tin" ? 16 : 8;
        return 0;
    }
    std::string decode(const ArrowSchema& s, const ArrowArray& a, std::int64_t i);

    // physical position p (offset already added); validity not looked at
    inline std::string decode_value(const ArrowSchema& s, const ArrowArray& a, std::int64_t p)
    {
        std::string_view f = s.format;
        const void* d = a.n_buffers > 1 ? a.buffers[1] : nullptr;
        auto list = [&](std::int64_t b, std::int64_t n)
        {
            std::string r = "[";
            for (std::int64_t k = 0; k < n; ++k) { if (k) r += ","; r += decode(*s.children[0], *a.children[0], b + k); }
            return r + "]";
        };
        auto fixed = [&](char c) -> std::string
        {
            switch (c)
            {
                case 'b': return bit(d, p) ? "b1" : "b0";
                case 'c': return num('c', rd<std::int8_t>(d, p));
                case 'C': return unum('C', rd<std::uint8_t>(d, p));
                case 's': return num('s', rd<std::int16_t>(d, p));
                case 'S': return unum('S', rd<std::uint16_t>(d, p));
                case 'i': return num('i', rd<std::int32_t>(d, p));
                case 'I': return unum('I', rd<std::uint32_t>(d, p));
                case 'l': return num('l', rd<std::int64_t>(d, p));
                case 'L': return unum('L', rd<std::uint64_t>(d, p));
                case 'e': return real('e', half(rd<std::uint16_t>(d, p)));
                case 'f': return real('f', rd<float>(d, p));
                case 'g': return real('g', rd<double>(d, p));
            }
            return "?";
        };
        if (s.dictionary)
        {
            std::string k = fixed(f[0]);
            return decode(*s.dictionary, *a.dictionary, std::stoll(k.substr(1)));
        }
        if (f.size() == 1 && std::strchr("bcCsSiIlLefg", f[0])) return fixed(f[0]);
        if (f == "n") return null_();
        if (f == "u" || f == "z")
        {
            auto b = rd<std::int32_t>(d, p), e = rd<std::int32_t>(d, p + 1);
            auto base = static_cast<const char*>(a.buffers[2]);
            return f == "u" ? text(std::string_view(base + b, std::size_t(e - b))) : bytes(base + b, std::size_t(e - b));
        }
        if (f == "U" || f == "Z")
        {
            auto b = rd<std::int64_t>(d, p), e = rd<std::int64_t>(d, p + 1);
            auto base = static_cast<const char*>(a.buffers[2]);
            return f == "U" ? text(std::string_view(base + b, std::size_t(e - b))) : bytes(base + b, std::size_t(e - b));
        }
        if (f == "vu" || f == "vz")
        {
            auto v = static_cast<const char*>(d) + 16 * p;
            auto n = rd<std::int32_t>(v, 0);
            const char* q = n <= 12 ? v + 4 : static_cast<const char*>(a.buffers[2 + rd<std::int32_t>(v, 2)]) + rd<std::int32_t>(v, 3);
            return f == "vu" ? text(std::string_view(q, std::size_t(n))) : bytes(q, std::size_t(n));
        }
        if (auto w = byte_width(f)) return bytes(static_cast<const char*>(d) + p * w, std::size_t(w));
        if (f == "+l" || f == "+m") { auto b = rd<std::int32_t>(d, p), e = rd<std::int32_t>(d, p + 1); return list(b, e - b); }
        if (f == "+L") { auto b = rd<std::int64_t>(d, p), e = rd<std::int64_t>(d, p + 1); return list(b, e - b); }
        if (f == "+vl") return list(rd<std::int32_t>(d, p), rd<std::int32_t>(a.buffers[2], p));
        if (f == "+vL") return list(rd<std::int64_t>(d, p), rd<std::int64_t>(a.buffers[2], p));
        if (f.substr(0, 3) == "+w:") { auto n = std::stoll(std::string(f.substr(3))); return list(p * n, n); }
        if (f == "+s")
        {
            std::string r = "{";
            for (std::int64_t k = 0; k < a.n_children; ++k) { if (k) r += ","; r += decode(*s.children[k], *a.children[k], p); }
            return r + "}";
        }
        if (f.substr(0, 4) == "+ud:" || f.substr(0, 4) == "+us:")
        {
            auto ids = union_ids(f);
            int id = rd<std::int8_t>(a.buffers[0], p);
            for (std::size_t k = 0; k < ids.size(); ++k)
                if (ids[k] == id) return decode(*s.children[k], *a.children[k], f[2] == 'd' ? rd<std::int32_t>(a.buffers[1], p) : p);
            return "?bad-type-id";
        }
        if (f == "+r")
        {
            const ArrowArray& re = *a.children[0];
            char c = s.children[0]->format[0];
            for (std::int64_t k = 0; k < re.length; ++k)
            {
                std::int64_t q = k + re.offset;
                std::int64_t end = c == 's' ? rd<std::int16_t>(re.buffers[1], q) : c == 'i' ? rd<std::int32_t>(re.buffers[1], q) : rd<std::int64_t>(re.buffers[1], q);
                if (p < end) return decode(*s.children[1], *a.children[1], k);
            }
            return "?past-the-last-run";
        }
        return "?format " + std::string(f);
    }
    inline std::string decode(const ArrowSchema& s, const ArrowArray& a, std::int64_t i)
    {
        std::int64_t p = i + a.offset;
        if (has_validity(s.format) && a.n_buffers > 0 && a.buffers[0] != nullptr && !bit(a.buffers[0], p)) return null_();
        return decode_value(s, a, p);
    }
    inline Strs decode_all(const ArrowSchema& s, const ArrowArray& a)
    {
        Strs r;
        for (std::int64_t i = 0; i < a.length; ++i) r.push_back(decode(s, a, i));
        return r;
    }

    // ------------------------------------------------------------------ validation
    inline bool readable(const void* p, std::int64_t n)
    {
        return n <= 0 || (p != nullptr && __asan_region_is_poisoned(const_cast<void*>(p), std::size_t(n)) == nullptr);
    }
    struct VOpt { bool nullable_flag = true; };
    inline std::string validate(const ArrowSchema& s, const ArrowArray& a, VOpt o = {}, std::int64_t need = -1);
    inline std::string validate_(const ArrowSchema& s, const ArrowArray& a, VOpt o, std::int64_t need, bool& logical_nulls)
    {
        auto err = [&](const char* f, auto... x) { return std::string(s.format ? s.format : "(null)") + ": " + vp::fmt(f, x...); };
        if (!s.format) return err("no format");
        if (!s.release) return err("schema is released");
        if (!a.release) return err("array is released");
        std::string_view f = s.format;
        if (a.length < 0 || a.offset < 0 || a.null_count < -1) return err("length %ld offset %ld null_count %ld", (long) a.length, (long) a.offset, (long) a.null_count);
        const std::int64_t n = a.offset + a.length;
        if (need >= 0 && a.length < need) return err("child length %ld < %ld", (long) a.length, (long) need);
        if (s.n_children != a.n_children) return err("children %ld / %ld", (long) s.n_children, (long) a.n_children);
        if ((s.dictionary == nullptr) != (a.dictionary == nullptr)) return err("dictionary on one side only");
        // number of buffers / children
        std::int64_t nb = -1, nc = 0;
        int width = 0;  // bytes per element, 0 when not fixed
        if (f.size() == 1 && std::strchr("bcCsSiIlLefg", f[0])) { nb = 2; width = std::strchr("cC", f[0]) ? 1 : std::strchr("sSe", f[0]) ? 2 : std::strchr("iIf", f[0]) ? 4 : 8; }
        else if (f == "n" ) nb = 0;
        else if (f == "u" || f == "z" || f == "U" || f == "Z") nb = 3;
        else if (f == "vu" || f == "vz") nb = a.n_buffers < 3 ? 3 : a.n_buffers;
        else if (f == "+l" || f == "+L" || f == "+m") { nb = 2; nc = 1; }
        else if (f == "+vl" || f == "+vL") { nb = 3; nc = 1; }
        else if (f.substr(0, 3) == "+w:") { nb = 1; nc = 1; }
        else if (f == "+s") { nb = 1; nc = a.n_children; }
        else if (f.substr(0, 4) == "+ud:") { nb = 2; nc = std::int64_t(union_ids(f).size()); }
        else if (f.substr(0, 4) == "+us:") { nb = 1; nc = std::int64_t(union_ids(f).size()); }
        else if (f == "+r") { nb = 0; nc = 2; }
        else if (auto w = byte_width(f)) { nb = 2; width = int(w); }
        else return err("unknown format");
        if (a.n_buffers != nb) return err("n_buffers %ld, expected %ld", (long) a.n_buffers, (long) nb);
        if (a.n_children != nc) return err("n_children %ld, expected %ld", (long) a.n_children, (long) nc);
        if (nc > 0 && (!a.children || !s.children)) return err("no children pointers");
        if (nb > 0 && !a.buffers) return err("no buffers pointer");
        for (std::int64_t k = 0; k < nc; ++k) if (!a.children[k] || !s.children[k]) return err("child %ld is null", (long) k);
        // nulls
        if (has_validity(f))
        {
            std::int64_t nulls = 0;
            if (a.buffers[0])
            {
                if (!readable(a.buffers[0], (n + 7) / 8)) return err("validity buffer shorter than %ld bits", (long) n);
                for (std::int64_t i = a.offset; i < n; ++i) nulls += !bit(a.buffers[0], i);
            }
            if (a.null_count >= 0 && a.null_count != nulls) return err("null_count %ld but %ld nulls in [%ld,%ld)", (long) a.null_count, (long) nulls, (long) a.offset, (long) n);
            if (o.nullable_flag && nulls && !(s.flags & 2)) return err("nulls in a field that is not flagged nullable");
        }
        else if (f == "n") { if (a.null_count >= 0 && a.null_count != a.length) return err("null_count %ld of a null array of %ld", (long) a.null_count, (long) a.length); }
        else if (a.null_count > 0) logical_nulls = true;   // no validity: 0, or the number of logical nulls
        auto nul = [&](std::int64_t p) { return has_validity(f) && a.buffers[0] && !bit(a.buffers[0], p); };
        auto sub = [&](std::int64_t k, std::int64_t nd) { return validate(*s.children[k], *a.children[k], o, nd); };
        if (s.dictionary)
        {
            if (f.size() != 1 || !std::strchr("cCsSiIlL", f[0])) return err("dictionary keys are not integers");
            if (!readable(a.buffers[1], n * width)) return err("keys buffer too small");
            auto e = validate(*s.dictionary, *a.dictionary, o);
            if (!e.empty()) return "dictionary: " + e;
            for (std::int64_t p = a.offset; p < n; ++p)
            {
                if (nul(p)) continue;
                std::int64_t key = width == 1 ? (f[0] == 'c' ? rd<std::int8_t>(a.buffers[1], p) : rd<std::uint8_t>(a.buffers[1], p))
                    : width == 2 ? (f[0] == 's' ? rd<std::int16_t>(a.buffers[1], p) : rd<std::uint16_t>(a.buffers[1], p))
                    : width == 4 ? (f[0] == 'i' ? std::int64_t(rd<std::int32_t>(a.buffers[1], p)) : std::int64_t(rd<std::uint32_t>(a.buffers[1], p))) : rd<std::int64_t>(a.buffers[1], p);
                if (key < 0 || key >= a.dictionary->length) return err("key %ld of %ld values", (long) key, (long) a.dictionary->length);
            }
            return "";
        }
        if (f == "b") { if (!readable(a.buffers[1], (n + 7) / 8)) return err("data buffer too small"); return ""; }
        if (width) { if (!readable(a.buffers[1], n * width)) return err("data buffer smaller than %ld values", (long) n); return ""; }
        if (f == "n") return "";
        auto offs = [&](auto tag, std::int64_t limit, const void* data) -> std::string
        {
            using T = decltype(tag);
            if (n == 0 && a.buffers[1] == nullptr) return "";
            if (!readable(a.buffers[1], (n + 1) * std::int64_t(sizeof(T)))) return err("offsets buffer smaller than %ld offsets", (long) n + 1);
            T prev = rd<T>(a.buffers[1], 0);
            if (prev < 0) return err("first offset %ld", (long) prev);
            for (std::int64_t p = 1; p <= n; ++p)
            {
                T v = rd<T>(a.buffers[1], p);
                if (v < prev) return err("offsets decrease at %ld: %ld %ld", (long) p, (long) prev, (long) v);
                prev = v;
            }
            if (limit >= 0 && prev > limit) return err("last offset %ld > child length %ld", (long) prev, (long) limit);
            if (limit < 0 && !readable(data, prev)) return err("data buffer smaller than the last offset %ld", (long) prev);
            return "";
        };
        if (f == "u" || f == "z") return offs(std::int32_t(), -1, a.buffers[2]);
        if (f == "U" || f == "Z") return offs(std::int64_t(), -1, a.buffers[2]);
        if (f == "+l" || f == "+L" || f == "+m")
        {
            auto e = sub(0, -1);
            if (!e.empty()) return e;
            return f != "+L" ? offs(std::int32_t(), a.children[0]->length, nullptr) : offs(std::int64_t(), a.children[0]->length, nullptr);
        }
        if (f == "+vl" || f == "+vL")
        {
            auto e = sub(0, -1);
            if (!e.empty()) return e;
            int w = f == "+vl" ? 4 : 8;
            if (!readable(a.buffers[1], n * w) || !readable(a.buffers[2], n * w)) return err("offsets / sizes buffer too small");
            for (std::int64_t p = a.offset; p < n; ++p)
            {
                std::int64_t b = w == 4 ? rd<std::int32_t>(a.buffers[1], p) : rd<std::int64_t>(a.buffers[1], p), z = w == 4 ? rd<std::int32_t>(a.buffers[2], p) : rd<std::int64_t>(a.buffers[2], p);
                if (b < 0 || z < 0 || b + z > a.children[0]->length) return err("list view [%ld,+%ld) of %ld", (long) b, (long) z, (long) a.children[0]->length);
            }
            return "";
        }
        if (f == "vu" || f == "vz")
        {
            if (!readable(a.buffers[1], n * 16)) return err("views buffer too small");
            std::int64_t nvar = nb - 3;
            if (!readable(a.buffers[nb - 1], nvar * 8)) return err("buffer of the variadic sizes too small");
            for (std::int64_t k = 0; k < nvar; ++k)
            {
                std::int64_t z = rd<std::int64_t>(a.buffers[nb - 1], k);
                if (z < 0 || !readable(a.buffers[2 + k], z)) return err("variadic buffer %ld: %ld bytes", (long) k, (long) z);
            }
            for (std::int64_t p = a.offset; p < n; ++p)
            {
                if (nul(p)) continue;
                auto v = static_cast<const char*>(a.buffers[1]) + 16 * p;
                std::int64_t len = rd<std::int32_t>(v, 0);
                if (len < 0) return err("view of length %ld", (long) len);
                if (len <= 12) { for (std::int64_t k = len; k < 12; ++k) if (v[4 + k]) return err("inline view not padded with zeros"); continue; }
                std::int64_t bi = rd<std::int32_t>(v, 2), bo = rd<std::int32_t>(v, 3);
                if (bi < 0 || bi >= nvar || bo < 0 || bo + len > rd<std::int64_t>(a.buffers[nb - 1], bi)) return err("view outside of its buffer: index %ld of %ld, [%ld,+%ld)", (long) bi, (long) nvar, (long) bo, (long) len);
                if (std::memcmp(v + 4, static_cast<const char*>(a.buffers[2 + bi]) + bo, 4)) return err("wrong prefix");
            }
            return "";
        }
        if (f.substr(0, 3) == "+w:") return sub(0, n * std::stoll(std::string(f.substr(3))));
        if (f == "+s") { for (std::int64_t k = 0; k < nc; ++k) { auto e = sub(k, n); if (!e.empty()) return e; } return ""; }
        if (f[1] == 'u')
        {
            auto ids = union_ids(f);
            for (std::int64_t k = 0; k < nc; ++k) { auto e = sub(k, f[2] == 's' ? n : -1); if (!e.empty()) return e; }
            if (!readable(a.buffers[0], n)) return err("type ids buffer too small");
            if (f[2] == 'd' && !readable(a.buffers[1], 4 * n)) return err("offsets buffer too small");
            for (std::int64_t p = a.offset; p < n; ++p)
            {
                int id = rd<std::int8_t>(a.buffers[0], p); std::int64_t c = -1;
                for (std::size_t k = 0; k < ids.size(); ++k) if (ids[k] == id) c = std::int64_t(k);
                if (c < 0) return err("type id %d not in the format", id);
                if (f[2] == 'd') { auto v = rd<std::int32_t>(a.buffers[1], p); if (v < 0 || v >= a.children[c]->length) return err("offset %d in a child of %ld", v, (long) a.children[c]->length); }
            }
            return "";
        }
        if (f == "+r")
        {
            std::string_view rf = s.children[0]->format;
            if (rf != "s" && rf != "i" && rf != "l") return err("run ends of format %s", s.children[0]->format);
            auto e = sub(0, -1); if (!e.empty()) return e;
            e = sub(1, -1); if (!e.empty()) return e;
            const ArrowArray& re = *a.children[0];
            if (re.null_count > 0) return err("null run ends");
            if (re.length > a.children[1]->length) return err("%ld run ends but %ld values", (long) re.length, (long) a.children[1]->length);
            std::int64_t prev = 0;
            for (std::int64_t q = re.offset; q < re.offset + re.length; ++q)
            {
                std::int64_t v = rf == "s" ? rd<std::int16_t>(re.buffers[1], q) : rf == "i" ? rd<std::int32_t>(re.buffers[1], q) : rd<std::int64_t>(re.buffers[1], q);
                if (v <= prev) return err("run ends not increasing: %ld %ld", (long) prev, (long) v);
                prev = v;
            }
            if (prev < n) return err("last run end %ld < offset + length %ld", (long) prev, (long) n);
            return "";
        }
        return err("?");
    }

    inline std::string validate(const ArrowSchema& s, const ArrowArray& a, VOpt o, std::int64_t need)
    {
        bool logical = false;
        auto e = validate_(s, a, o, need, logical);
        if (e.empty() && logical)
        {
            std::int64_t k = 0;
            for (auto& x : decode_all(s, a)) k += x == null_();
            if (k != a.null_count) return std::string(s.format) + vp::fmt(": null_count %ld but %ld logical nulls", (long) a.null_count, (long) k);
        }
        return e;
    }

    // ------------------------------------------------------------------ foreign producer
    struct Tracker;
    struct FPriv
    {
        Tracker* t;
        bool released = false;
        bool is_array;
        std::string format, name, metadata;
        std::vector<std::unique_ptr<unsigned char[]>> bufs;
        std::vector<std::size_t> sizes;
        std::vector<std::uint64_t> hashes;
        std::vector<const void*> buf_ptrs;
        std::vector<ArrowArray*> ca; ArrowArray* da = nullptr;
        std::vector<ArrowSchema*> cs; ArrowSchema* ds = nullptr;
        ArrowArray a0; ArrowSchema s0;    // what was handed out
    };
    // Accounts for every structure handed to sparrow
    struct Tracker
    {
        std::vector<std::unique_ptr<FPriv>> nodes;
        int live_arrays = 0, live_schemas = 0;
        bool own_structs = true;
        bool writable = false;      // the user may write to the buffers through the array
        ~Tracker() {}
        void unchanged() const      // no byte of the buffers of any unreleased node changed
        {
            if (writable) return;
            for (auto& n : nodes)
            {
                if (n->released) continue;
                for (std::size_t i = 0; i < n->bufs.size(); ++i)
                    if (n->bufs[i]) VP_CHECK(vp::Hash{}.bytes(n->bufs[i].get(), n->sizes[i]).h == n->hashes[i], "buffer %zu of a foreign array (%s) was written", i, n->format.c_str());
            }
        }
        void check(int arrays, int schemas) const
        {
            VP_CHECK(live_arrays == arrays, "%d foreign arrays not released, expected %d", live_arrays, arrays);
            VP_CHECK(live_schemas == schemas, "%d foreign schemas not released, expected %d", live_schemas, schemas);
        }
    };
    inline void f_release_array(ArrowArray* a)
    {
        auto p = static_cast<FPriv*>(a->private_data);
        VP_CHECK(!p->released, "foreign array released twice (%s)", p->format.c_str());
        VP_CHECK(a->release == f_release_array && a->buffers == p->a0.buffers && a->children == p->a0.children && a->dictionary == p->a0.dictionary && a->n_children == p->a0.n_children && a->n_buffers == p->a0.n_buffers,
                 "released structure differs from the one that was produced");
        p->released = true;
        for (std::size_t i = 0; i < p->bufs.size(); ++i)
            if (p->bufs[i] && !p->t->writable) VP_CHECK(vp::Hash{}.bytes(p->bufs[i].get(), p->sizes[i]).h == p->hashes[i], "buffer %zu of a foreign array (%s) was written", i, p->format.c_str());
        for (auto c : p->ca) { if (c->release) c->release(c); delete c; }
        if (p->da) { if (p->da->release) p->da->release(p->da); delete p->da; }
        p->bufs.clear(); p->bufs.shrink_to_fit();
        p->t->live_arrays--;
        a->release = nullptr;
    }
    inline void f_release_schema(ArrowSchema* s)
    {
        auto p = static_cast<FPriv*>(s->private_data);
        VP_CHECK(!p->released, "foreign schema released twice (%s)", p->format.c_str());
        VP_CHECK(s->release == f_release_schema && s->format == p->s0.format && s->name == p->s0.name && s->metadata == p->s0.metadata && s->children == p->s0.children && s->dictionary == p->s0.dictionary && s->n_children == p->s0.n_children,
                 "released schema differs from the one that was produced");
        p->released = true;
        for (auto c : p->cs) { if (c->release) c->release(c); delete c; }
        if (p->ds) { if (p->ds->release) p->ds->release(p->ds); delete p->ds; }
        std::string().swap(p->format); std::string().swap(p->name); std::string().swap(p->metadata);
        p->t->live_schemas--;
        s->release = nullptr;
    }
    struct FNode
    {
        std::string format;
        std::optional<std::string> name, metadata;
        std::int64_t flags = 2, length = 0, null_count = 0, offset = 0;
        std::vector<std::optional<std::vector<unsigned char>>> buffers;
        std::vector<FNode> children;
        std::vector<FNode> dictionary;   // 0 or 1

        ArrowArray array(Tracker& t) const
        {
            t.nodes.push_back(std::make_unique<FPriv>());
            FPriv* p = t.nodes.back().get();
            p->t = &t; p->is_array = true; p->format = format;
            for (auto& b : buffers)
            {
                if (!b) { p->bufs.push_back(nullptr); p->sizes.push_back(0); p->hashes.push_back(0); p->buf_ptrs.push_back(nullptr); continue; }
                auto u = std::unique_ptr<unsigned char[]>(new unsigned char[b->size()]);   // exactly sized: ASan sees any overrun
                if (!b->empty()) std::memcpy(u.get(), b->data(), b->size());
                p->buf_ptrs.push_back(u.get()); p->sizes.push_back(b->size()); p->hashes.push_back(vp::Hash{}.bytes(u.get(), b->size()).h);
                p->bufs.push_back(std::move(u));
            }
            for (auto& c : children) p->ca.push_back(new ArrowArray(c.array(t)));
            for (auto& d : dictionary) p->da = new ArrowArray(d.array(t));
            ArrowArray a{};
            a.length = length; a.null_count = null_count; a.offset = offset;
            a.n_buffers = std::int64_t(buffers.size()); a.n_children = std::int64_t(children.size());
            a.buffers = buffers.empty() ? nullptr : p->buf_ptrs.data();
            a.children = children.empty() ? nullptr : p->ca.data();
            a.dictionary = p->da; a.release = f_release_array; a.private_data = p;
            p->a0 = a; t.live_arrays++;
            return a;
        }
        ArrowSchema schema(Tracker& t) const
        {
            t.nodes.push_back(std::make_unique<FPriv>());
            FPriv* p = t.nodes.back().get();
            p->t = &t; p->is_array = false; p->format = format;
            if (name) p->name = *name;
            if (metadata) p->metadata = *metadata;
            for (auto& c : children) p->cs.push_back(new ArrowSchema(c.schema(t)));
            for (auto& d : dictionary) p->ds = new ArrowSchema(d.schema(t));
            ArrowSchema s{};
            s.format = p->format.c_str(); s.name = name ? p->name.c_str() : nullptr; s.metadata = metadata ? p->metadata.c_str() : nullptr;
            s.flags = flags; s.n_children = std::int64_t(children.size()); s.children = children.empty() ? nullptr : p->cs.data();
            s.dictionary = p->ds; s.release = f_release_schema; s.private_data = p;
            p->s0 = s; t.live_schemas++;
            return s;
        }
    };
    using Bytes = std::vector<unsigned char>;
    inline Bytes pack(const std::vector<bool>& v, bool garbage_tail = false)
    {
        Bytes b((v.size() + 7) / 8, 0);
        for (std::size_t i = 0; i < b.size() * 8; ++i) if (i < v.size() ? v[i] : garbage_tail) b[i / 8] |= static_cast<unsigned char>(1u << (i % 8));
        return b;
    }
    template <class T> Bytes raw(const std::vector<T>& v)
    {
        Bytes b(v.size() * sizeof(T));
        if (!b.empty()) std::memcpy(b.data(), v.data(), b.size());
        return b;
    }
    inline Bytes raws(std::string_view s) { return Bytes(s.begin(), s.end()); }
    inline std::string diff(const Strs& got, const Strs& want) { return "got " + join(got) + "| want " + join(want); }
}
#define VP_SAME(got, want, ...) do { auto vp_g_ = (got); auto vp_w_ = (want); VP_CHECK(vp_g_ == vp_w_, "%s %s", (::vp::fmt("" __VA_ARGS__)).c_str(), ::ar::diff(vp_g_, vp_w_).c_str()); } while (0)
