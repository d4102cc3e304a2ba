// P17: string and binary view arrays decode every view form
#include "deep.hpp"
#include <sparrow/arrow_array_schema_proxy.hpp>
using namespace vp;
using namespace zu;

static const std::size_t LEN[] = {0, 1, 4, 5, 11, 12, 13, 14, 40, 300};
static std::string word(std::size_t i, std::size_t len, bool binary)
{
    std::string s;
    for (std::size_t k = 0; k < len; ++k) s += binary ? char(k * 37 + i * 11 + 128) : char('a' + (k + i * 5) % 26);
    return s;
}
static std::string shown_(const std::string& s, bool binary) { return binary ? ar::bytes(s.data(), s.size()) : ar::text(s); }

// everything the typed array and its exported structures say
template <class A> static void look(A& x, const ar::Strs& want, const char* what)
{
    typed(x, want, what);
    const auto& p = sp::detail::array_access::get_arrow_proxy(x);
    says(p.schema(), p.array(), want, what);
    auto cp = x;
    typed(cp, want, "copy");
    const auto& q = sp::detail::array_access::get_arrow_proxy(cp);
    says(q.schema(), q.array(), want, "copy");
    if constexpr (std::is_same_v<A, sp::string_view_array>) VP_CHECK(cp == x, "copy differs");
    A mv(std::move(cp));
    typed(mv, want, "moved");
}
template <class A> static void windows(A& x, const ar::Strs& want)
{
    auto [b, e] = window(want.size());
    const bool view = flip();
    A s = view ? x.slice_view(b, e) : x.slice(b, e);
    note([&, b = b, e = e] { return fmt("%s(%zu, %zu)", view ? "slice_view" : "slice", b, e); });
    typed(s, sub(want, b, e), "slice");
    const auto& p = sp::detail::array_access::get_arrow_proxy(s);
    says(p.schema(), p.array(), sub(want, b, e), "slice");
    typed(x, want, "source of a slice");
}
template <class A> static void imported_(bool binary, std::size_t maxn, std::size_t nlen, std::size_t maxP, bool win)
{
    LeakScope l;
    std::size_t n = choose(std::uint32_t(maxn + 1)), P = choose(std::uint32_t(maxP + 1)), nvar = choose(win ? 2 : 3);
    const bool garbage = flip(), shared = nvar > 0 && flip();
    Mask m = mask_of(n);
    const bool absent = all(m) && flip();
    std::vector<std::string> var(nvar);
    for (std::size_t k = 0; k < nvar; ++k) if (garbage) var[k] = std::string(3 * k + 1, '#');
    ar::Bytes views; ar::Strs w;
    for (std::size_t p = 0; p < P + n; ++p)
    {
        unsigned char v[16] = {};
        const bool null = p >= P && !m[p - P];
        if ((null || p < P) && garbage)      // the view of a null (or unused) slot may be anything
        {
            std::int32_t x[4] = {p % 2 ? 40 : 1 << 30, -1, 1000, 1 << 29}; std::memcpy(v, x, 16);
        }
        else
        {
            std::size_t len = p < P ? 3 : LEN[choose(std::uint32_t(nlen))];
            if (nvar == 0) { if (len > 12) prune(); }
            auto s = word(p, len, binary);
            std::int32_t ln = std::int32_t(len); std::memcpy(v, &ln, 4);
            if (len <= 12) std::memcpy(v + 4, s.data(), len);
            else
            {
                std::int32_t b = std::int32_t(nvar > 1 ? choose(std::uint32_t(nvar)) : 0);
                auto& d = var[std::size_t(b)];
                auto found = shared ? d.find(s.substr(0, 4)) : std::string::npos;
                std::int32_t at = found != std::string::npos && d.compare(found, len, s) == 0 ? std::int32_t(found) : std::int32_t(d.size());
                if (std::size_t(at) == d.size()) d += s;
                std::memcpy(v + 4, s.data(), 4); std::memcpy(v + 8, &b, 4); std::memcpy(v + 12, &at, 4);
            }
            if (p >= P) w.push_back(null ? ar::null_() : shown_(s, binary));
            views.insert(views.end(), v, v + 16);
            continue;
        }
        if (p >= P) w.push_back(ar::null_());
        views.insert(views.end(), v, v + 16);
    }
    auto node = fnode(binary ? "vz" : "vu", std::int64_t(n), std::int64_t(P), {vbits(m, P, garbage, absent), views});
    std::vector<std::int64_t> sizes;
    for (auto& d : var) { if (garbage) d += "##"; node.buffers.push_back(ar::raws(d)); sizes.push_back(std::int64_t(d.size())); }
    node.buffers.push_back(ar::raw(sizes));
    node.null_count = nulls(m);
    note([&] { return fmt("%s offset %zu, %zu data buffers%s: %s", binary ? "vz" : "vu", P, nvar, garbage ? ", garbage" : "", ar::join(w).c_str()); });
    ar::Tracker t;
    ArrowArray fa = node.array(t); ArrowSchema fs = node.schema(t);
    {
        auto e = ar::validate(fs, fa);
        VP_CHECK(e.empty(), "harness: %s", e.c_str());
        VP_SAME(ar::decode_all(fs, fa), w, "harness");
    }
    const bool by_pointer = flip();
    {
        A x = by_pointer ? A(sp::arrow_proxy(&fa, &fs)) : A(sp::arrow_proxy(std::move(fa), std::move(fs)));
        if (win) windows(x, w); else look(x, w, "imported");
        t.unchanged();
    }
    if (by_pointer) { fa.release(&fa); fs.release(&fs); }
    t.check(0, 0);
}
template <class A, class T> static void built(bool binary, std::size_t maxn, std::size_t nlen, bool win)
{
    LeakScope l;
    std::size_t n = choose(std::uint32_t(maxn + 1));
    std::vector<std::string> src; ar::Strs w; std::size_t total = 0;
    Mask m = mask_of(n);
    for (std::size_t i = 0; i < n; ++i)
    {
        src.push_back(word(i, LEN[choose(std::uint32_t(nlen))], binary));
        w.push_back(m[i] ? shown_(src.back(), binary) : ar::null_());
        if (src.back().size() > 12) total += src.back().size();
    }
    std::vector<T> in;
    for (auto& s : src) in.push_back(T(reinterpret_cast<const typename T::value_type*>(s.data()), s.size()));
    note([&] { std::string x; for (auto& s : src) x += std::to_string(s.size()) + " "; return fmt("built from lengths %svalid %s", x.c_str(), show(m).c_str()); });
    A x = all(m) && flip() ? A(in) : A(in, m);
    // the layout of built arrays
    const auto& p = sp::detail::array_access::get_arrow_proxy(x);
    const auto& a = p.array();
    VP_CHECK(std::string_view(p.schema().format) == (binary ? "vz" : "vu") && a.n_buffers >= 3, "format");
    for (std::size_t i = 0; i < n; ++i)
    {
        const char* v = static_cast<const char*>(a.buffers[1]) + 16 * i;
        VP_CHECK(ar::rd<std::int32_t>(v, 0) == std::int32_t(src[i].size()), "length of view %zu", i);
        if (src[i].size() <= 12) { VP_CHECK(std::memcmp(v + 4, src[i].data(), src[i].size()) == 0, "inline view %zu", i); continue; }
        VP_CHECK(std::memcmp(v + 4, src[i].data(), 4) == 0, "prefix of view %zu", i);
        auto b = ar::rd<std::int32_t>(v, 2), at = ar::rd<std::int32_t>(v, 3);
        VP_CHECK(b >= 0 && b < a.n_buffers - 3 && std::memcmp(static_cast<const char*>(a.buffers[2 + b]) + at, src[i].data(), src[i].size()) == 0, "data of view %zu", i);
    }
    if (win) windows(x, w); else look(x, w, "built");
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        using S = sp::string_view_array; using B = sp::binary_view_array;
        using bv = std::span<const std::byte>;
        add("imported strings", [] { imported_<S>(false, 2, tier(9, 10), 1, false); });
        add("imported binaries", [] { imported_<B>(true, 2, tier(7, 10), 1, false); });
        add("imported strings: three", [] { imported_<S>(false, 3, 6, 2, false); }, {.thorough_only = true});
        add("imported strings: slices", [] { imported_<S>(false, 3, 3, 1, true); });
        add("imported binaries: slices", [] { imported_<B>(true, 2, 3, 1, true); });
        add("built strings", [] { built<S, std::string_view>(false, tier(3, 4), tier(9, 10), false); });
        add("built binaries", [] { built<B, bv>(true, tier(2, 3), 10, false); });
        add("built strings: slices", [] { built<S, std::string_view>(false, 3, 4, true); });
        add("long", [] { built<S, std::string_view>(false, 2, 10, true); });
    });
}
