#include "zoo.hpp"
#include <numeric>

namespace zoo
{
    namespace
    {
        Mask child_mask(std::size_t n, int salt)
        {
            Mask m(n, true);
            for (std::size_t j = 0; j < n; ++j) m[j] = (j + std::size_t(salt)) % 4 != 2;
            return m;
        }
        std::vector<bool> const& id(const Mask& m) { return m; }

        template <class T> T value_of(std::size_t i, int salt) { return T(int(i) * 3 + salt + 1); }
        template <class T> Made prim(const Mask& valid, int salt)
        {
            std::vector<T> v; ar::Strs w;
            for (std::size_t i = 0; i < valid.size(); ++i)
            {
                T x;
                if constexpr (std::is_same_v<T, sp::float16_t>) x = sp::float16_t(float((int(i) * 3 + salt + 1) % 1000) / 2.0f);
                else if constexpr (std::is_floating_point_v<T>) x = T(int(i) * 3 + salt + 1) / T(4);
                else x = std::is_signed_v<T> && i % 2 ? T(-value_of<T>(i, salt)) : value_of<T>(i, salt);
                v.push_back(x);
                w.push_back(valid[i] ? sc::canon_value(x) : ar::null_());
            }
            return {sp::array(sp::primitive_array<T>(v, valid)), w};
        }
        std::string word(std::size_t i, int salt)
        {
            std::size_t n = (i + std::size_t(salt)) % 4;
            return std::string(n, char('a' + (i + std::size_t(salt)) % 26));
        }
        Made str(const Mask& valid, int salt)
        {
            std::vector<std::string> v; ar::Strs w;
            for (std::size_t i = 0; i < valid.size(); ++i) { v.push_back(word(i, salt)); w.push_back(valid[i] ? ar::text(v.back()) : ar::null_()); }
            return {sp::array(sp::string_array(v, valid)), w};
        }
        std::string listtext(const ar::Strs& c, std::size_t b, std::size_t n)
        {
            std::string r = "[";
            for (std::size_t k = 0; k < n; ++k) { if (k) r += ","; r += c[b + k]; }
            return r + "]";
        }
        std::vector<std::size_t> sizes_of(std::size_t n, int salt)
        {
            std::vector<std::size_t> s;
            for (std::size_t i = 0; i < n; ++i) s.push_back((i * 2 + std::size_t(salt) + 1) % 3);
            return s;
        }
        template <class L> Maker list_of(Maker child)
        {
            return [child](const Mask& valid, int salt) -> Made
            {
                auto s = sizes_of(valid.size(), salt);
                std::size_t tot = std::accumulate(s.begin(), s.end(), std::size_t(0));
                auto c = child(child_mask(tot, salt), salt + 1);
                ar::Strs w;
                for (std::size_t i = 0, b = 0; i < s.size(); b += s[i++]) w.push_back(valid[i] ? listtext(c.want, b, s[i]) : ar::null_());
                return {sp::array(L(std::move(c.a), L::offset_from_sizes(s), valid)), w};
            };
        }
        template <class L> Maker list_view_of(Maker child)
        {
            return [child](const Mask& valid, int salt) -> Made
            {
                using O = std::conditional_t<std::is_same_v<L, sp::big_list_view_array>, std::uint64_t, std::uint32_t>;
                auto s = sizes_of(valid.size(), salt);
                std::size_t tot = std::accumulate(s.begin(), s.end(), std::size_t(0));
                auto c = child(child_mask(tot, salt), salt + 1);
                ar::Strs w; std::vector<O> off, sz; std::size_t e = tot;
                for (std::size_t i = 0; i < s.size(); ++i)     // stored in reverse order
                {
                    e -= s[i]; off.push_back(O(e)); sz.push_back(O(s[i]));
                    w.push_back(valid[i] ? listtext(c.want, e, s[i]) : ar::null_());
                }
                return {sp::array(L(std::move(c.a), sp::u8_buffer<O>(off), sp::u8_buffer<O>(sz), valid)), w};
            };
        }
        Maker fixed_of(Maker child, std::size_t k)
        {
            return [child, k](const Mask& valid, int salt) -> Made
            {
                auto c = child(child_mask(valid.size() * k, salt), salt + 1);
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) w.push_back(valid[i] ? listtext(c.want, i * k, k) : ar::null_());
                return {sp::array(sp::fixed_sized_list_array(std::uint64_t(k), std::move(c.a), valid)), w};
            };
        }
        Maker struct_of(std::vector<Maker> ch)
        {
            return [ch](const Mask& valid, int salt) -> Made
            {
                std::vector<sp::array> cs; std::vector<ar::Strs> ws;
                for (std::size_t k = 0; k < ch.size(); ++k)
                {
                    auto c = ch[k](child_mask(valid.size(), salt + int(k)), salt + 2 * int(k));
                    cs.push_back(std::move(c.a)); ws.push_back(c.want);
                }
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    std::string r = "{";
                    for (std::size_t k = 0; k < ws.size(); ++k) { if (k) r += ","; r += ws[k][i]; }
                    w.push_back(valid[i] ? r + "}" : ar::null_());
                }
                return {sp::array(sp::struct_array(std::move(cs), valid)), w};
            };
        }
        // nulls of a union are the nulls of its children
        Maker dense_of(std::vector<Maker> ch, std::vector<std::uint8_t> mapping = {})
        {
            return [ch, mapping](const Mask& valid, int salt) -> Made
            {
                const std::size_t nc = ch.size();
                std::vector<Mask> cm(nc); std::vector<std::uint8_t> ids; std::vector<std::uint32_t> off; std::vector<std::size_t> sel;
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    std::size_t c = (i * i + std::size_t(salt)) % nc;
                    sel.push_back(c); ids.push_back(mapping.empty() ? std::uint8_t(c) : mapping[c]); off.push_back(std::uint32_t(cm[c].size())); cm[c].push_back(valid[i]);
                }
                std::vector<sp::array> cs; std::vector<ar::Strs> ws;
                for (std::size_t k = 0; k < nc; ++k) { auto c = ch[k](cm[k], salt + int(k)); cs.push_back(std::move(c.a)); ws.push_back(c.want); }
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) w.push_back(ws[sel[i]][off[i]]);
                if (mapping.empty()) return {sp::array(sp::dense_union_array(std::move(cs), sp::u8_buffer<std::uint8_t>(ids), sp::u8_buffer<std::uint32_t>(off))), w};
                return {sp::array(sp::dense_union_array(std::move(cs), sp::u8_buffer<std::uint8_t>(ids), sp::u8_buffer<std::uint32_t>(off), mapping)), w};
            };
        }
        Maker sparse_of(std::vector<Maker> ch, std::vector<std::uint8_t> mapping = {})
        {
            return [ch, mapping](const Mask& valid, int salt) -> Made
            {
                const std::size_t nc = ch.size();
                std::vector<std::uint8_t> ids; std::vector<std::size_t> sel;
                for (std::size_t i = 0; i < valid.size(); ++i) { std::size_t c = (i * i + std::size_t(salt)) % nc; sel.push_back(c); ids.push_back(mapping.empty() ? std::uint8_t(c) : mapping[c]); }
                std::vector<sp::array> cs; std::vector<ar::Strs> ws;
                for (std::size_t k = 0; k < nc; ++k) { auto c = ch[k](valid, salt + int(k)); cs.push_back(std::move(c.a)); ws.push_back(c.want); }
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) w.push_back(ws[sel[i]][i]);
                if (mapping.empty()) return {sp::array(sp::sparse_union_array(std::move(cs), sp::u8_buffer<std::uint8_t>(ids))), w};
                return {sp::array(sp::sparse_union_array(std::move(cs), sp::u8_buffer<std::uint8_t>(ids), mapping)), w};
            };
        }
        template <class R> Maker ree_of(Maker child)
        {
            return [child](const Mask& valid, int salt) -> Made
            {
                std::vector<R> ends; Mask cm;
                for (std::size_t i = 0; i < valid.size();)
                {
                    std::size_t len = 1 + (ends.size() + std::size_t(salt)) % 3;
                    len = std::min(len, valid.size() - i);
                    cm.push_back(valid[i]); i += len; ends.push_back(R(i));
                }
                auto c = child(cm, salt + 1);
                ar::Strs w;
                for (std::size_t i = 0, r = 0; i < valid.size(); ++i) { if (i >= std::size_t(ends[r])) ++r; w.push_back(c.want[r]); }
                return {sp::array(sp::run_end_encoded_array(sp::array(sp::primitive_array<R>(ends)), std::move(c.a))), w};
            };
        }
        template <class K> Maker dict_of(Maker child)
        {
            return [child](const Mask& valid, int salt) -> Made
            {
                std::size_t d = std::max<std::size_t>(1, std::min<std::size_t>(valid.size(), 5));
                Mask dm(d, true); if (d > 2) dm[2] = false;
                auto c = child(dm, salt + 1);
                std::vector<K> keys; ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) { keys.push_back(K((i * 2 + std::size_t(salt)) % d)); w.push_back(valid[i] ? c.want[std::size_t(keys.back())] : ar::null_()); }
                return {sp::array(sp::dictionary_encoded_array<K>(sp::u8_buffer<K>(keys), std::move(c.a), valid)), w};
            };
        }
        std::vector<Kind> build()
        {
            Maker i32 = prim<std::int32_t>, s = str, i64 = prim<std::int64_t>, f64 = prim<double>;
            Maker li = list_of<sp::list_array>(i32), ls = list_of<sp::list_array>(s);
            Maker st = struct_of({i32, s}), di = dict_of<std::uint8_t>(s);
            return {
                {"i32", i32, false}, {"string", s, false}, {"list<i32>", li, true}, {"struct<i32,string>", st, true},
                {"dense<i32,string>", dense_of({i32, s}), true}, {"sparse<i32,string,f64>", sparse_of({i32, s, f64}), true},
                {"ree32<i32>", ree_of<std::uint32_t>(i32), true}, {"dict8<string>", di, true},
                {"i8", prim<std::int8_t>, false}, {"u8", prim<std::uint8_t>, false}, {"i16", prim<std::int16_t>, false}, {"u16", prim<std::uint16_t>, false},
                {"u32", prim<std::uint32_t>, false}, {"i64", i64, false}, {"u64", prim<std::uint64_t>, false},
                {"f16", prim<sp::float16_t>, false}, {"f32", prim<float>, false}, {"f64", f64, false},
                {"biglist<string>", list_of<sp::big_list_array>(s), true}, {"listview<i32>", list_view_of<sp::list_view_array>(i32), true},
                {"biglistview<string>", list_view_of<sp::big_list_view_array>(s), true}, {"fixed2<i32>", fixed_of(i32, 2), true},
                {"ree16<string>", ree_of<std::uint16_t>(s), true}, {"ree64<f64>", ree_of<std::uint64_t>(f64), true},
                {"dict32<i64>", dict_of<std::int32_t>(i64), true}, {"dict64<list>", dict_of<std::uint64_t>(li), true},
                {"dense-mapped", dense_of({i32, s}, {7, 3}), true}, {"sparse-mapped", sparse_of({s, i64}, {5, 0}), true},
                {"list<struct>", list_of<sp::list_array>(st), true}, {"struct<list,dict,i64>", struct_of({ls, di, i64}), true},
                {"list<list<string>>", list_of<sp::list_array>(ls), true}, {"list<dict>", list_of<sp::big_list_array>(di), true},
                {"struct<ree,fixed>", struct_of({ree_of<std::uint32_t>(s), fixed_of(s, 3)}), true}, {"ree<struct>", ree_of<std::uint32_t>(st), true},
                {"dense<list,struct>", dense_of({li, st}), true}, {"list<sparse>", list_of<sp::list_array>(sparse_of({i32, s})), true},
                {"dict<struct>", dict_of<std::int16_t>(st), true}, {"fixed3<list>", fixed_of(li, 3), true}, {"listview<struct>", list_view_of<sp::list_view_array>(st), true},
                {"struct<struct>", struct_of({st, f64}), true},
            };
        }
    }
    const std::vector<Kind>& kinds() { static const auto* k = new std::vector<Kind>(build()); return *k; }

    Mask choose_mask(std::size_t n, std::size_t limit)
    {
        Mask m(n, true);
        if (n <= limit) { for (std::size_t i = 0; i < n; ++i) m[i] = !vp::flip(); return m; }
        switch (vp::choose(4))
        {
            case 0: break;
            case 1: m.assign(n, false); break;
            case 2: for (std::size_t i = 0; i < n; ++i) m[i] = i % 3 != 1; break;
            default: m[n - 1] = false; m[n / 2] = false; m[0] = false; break;
        }
        return m;
    }

    // =================================================================== foreign arrays
    namespace
    {
        using ar::FNode; using ar::Bytes;
        // validity buffer of offset + n bits
        std::optional<Bytes> validity(const Mask& valid, const FOpt& o)
        {
            if (o.no_validity) return std::nullopt;
            std::vector<bool> b;
            for (std::size_t i = 0; i < o.offset; ++i) b.push_back(o.garbage ? i % 2 == 0 : true);
            for (bool v : valid) b.push_back(v);
            return ar::pack(b, o.garbage);
        }
        std::int64_t nulls(const Mask& valid, const FOpt& o)
        {
            if (o.null_count_unknown) return -1;
            return std::int64_t(std::count(valid.begin(), valid.end(), false));
        }
        FNode base(std::string fmt, const Mask& valid, const FOpt& o)
        {
            FNode n; n.format = std::move(fmt); n.length = std::int64_t(valid.size()); n.offset = std::int64_t(o.offset); n.null_count = nulls(valid, o);
            return n;
        }
        std::string eff(const Mask& valid, const FOpt& o, std::size_t i, const std::string& s) { return (valid[i] || o.no_validity) ? s : ar::null_(); }
        FOpt copt(const FOpt& o, int salt)
        {
            FOpt c; c.offset = std::size_t(o.child_offset); c.garbage = o.garbage; c.null_count_unknown = o.null_count_unknown; c.salt = o.salt + salt; c.child_offset = o.child_offset;
            return c;
        }
        template <class T> FMaker fprim(std::string f)
        {
            return [f](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(f, valid, o);
                std::vector<T> v; ar::Strs w;
                for (std::size_t i = 0; i < o.offset; ++i) v.push_back(T(101 + i));
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    T x = T(T(i) * T(3) + T(o.salt) + T(1));
                    if constexpr (std::is_signed_v<T>) if (i % 2) x = T(-x);
                    v.push_back(x); w.push_back(eff(valid, o, i, ar::prim<T>(x)));
                }
                n.buffers = {validity(valid, o), ar::raw(v)};
                return {n, w};
            };
        }
        FMade fhalf(const Mask& valid, const FOpt& o)
        {
            auto n = base("e", valid, o);
            std::vector<std::uint16_t> v; ar::Strs w;
            for (std::size_t i = 0; i < o.offset; ++i) v.push_back(0x7c01);
            for (std::size_t i = 0; i < valid.size(); ++i) { std::uint16_t x = std::uint16_t(0x3c00 + i * 37 + std::size_t(o.salt)); v.push_back(x); w.push_back(eff(valid, o, i, ar::real('e', ar::half(x)))); }
            n.buffers = {validity(valid, o), ar::raw(v)};
            return {n, w};
        }
        FMade fnull(const Mask& valid, const FOpt& o)
        {
            auto n = base("n", valid, o); n.null_count = n.length;
            return {n, ar::Strs(valid.size(), ar::null_())};
        }
        FMade fstr(const Mask& valid, const FOpt& o)
        {
            auto n = base("u", valid, o);
            std::vector<std::int32_t> off; std::string data = o.garbage ? "##" : ""; ar::Strs w;
            off.push_back(std::int32_t(data.size()));
            for (std::size_t i = 0; i < o.offset; ++i) { data += "Q"; off.push_back(std::int32_t(data.size())); }
            for (std::size_t i = 0; i < valid.size(); ++i)
            {
                auto x = word(i, o.salt);
                if (!valid[i] && !o.garbage) x.clear();
                data += x; off.push_back(std::int32_t(data.size())); w.push_back(eff(valid, o, i, ar::text(x)));
            }
            n.buffers = {validity(valid, o), ar::raw(off), ar::raws(data)};
            return {n, w};
        }
        template <class O> FMaker flist(std::string f, FMaker child)
        {
            return [f, child](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(f, valid, o);
                auto s = sizes_of(valid.size(), o.salt);
                std::vector<O> off; std::size_t pos = o.garbage ? 1 : 0;
                off.push_back(O(pos));
                for (std::size_t i = 0; i < o.offset; ++i) { pos += 1; off.push_back(O(pos)); }
                std::vector<std::size_t> b;
                for (auto x : s) { b.push_back(pos); pos += x; off.push_back(O(pos)); }
                std::size_t tot = pos + (o.garbage ? 1 : 0);
                auto c = child(child_mask(tot, o.salt), copt(o, 1));
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) w.push_back(eff(valid, o, i, listtext(c.want, b[i], s[i])));
                n.buffers = {validity(valid, o), ar::raw(off)};
                n.children = {c.n};
                return {n, w};
            };
        }
        template <class O> FMaker flist_view(std::string f, FMaker child)
        {
            return [f, child](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(f, valid, o);
                auto s = sizes_of(valid.size(), o.salt);
                std::size_t tot = std::accumulate(s.begin(), s.end(), std::size_t(0)) + (o.garbage ? 2 : 0), e = tot;
                auto c = child(child_mask(tot, o.salt), copt(o, 1));
                std::vector<O> off, sz; ar::Strs w;
                for (std::size_t i = 0; i < o.offset; ++i) { off.push_back(0); sz.push_back(O(tot ? 1 : 0)); }
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    e -= s[i]; off.push_back(O(e)); sz.push_back(O(s[i]));
                    w.push_back(eff(valid, o, i, listtext(c.want, e, s[i])));
                }
                n.buffers = {validity(valid, o), ar::raw(off), ar::raw(sz)};
                n.children = {c.n};
                return {n, w};
            };
        }
        FMaker ffixed(std::size_t k, FMaker child)
        {
            return [k, child](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base("+w:" + std::to_string(k), valid, o);
                auto c = child(child_mask((o.offset + valid.size()) * k, o.salt), copt(o, 1));
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) w.push_back(eff(valid, o, i, listtext(c.want, (o.offset + i) * k, k)));
                n.buffers = {validity(valid, o)};
                n.children = {c.n};
                return {n, w};
            };
        }
        FMaker fstruct(std::vector<FMaker> ch)
        {
            return [ch](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base("+s", valid, o);
                std::vector<ar::Strs> ws;
                for (std::size_t k = 0; k < ch.size(); ++k)
                {
                    auto c = ch[k](child_mask(o.offset + valid.size() + (o.garbage ? 1 : 0), o.salt + int(k)), copt(o, 2 * int(k)));
                    c.n.name = "field" + std::to_string(k);
                    n.children.push_back(c.n); ws.push_back(c.want);
                }
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    std::string r = "{";
                    for (std::size_t k = 0; k < ws.size(); ++k) { if (k) r += ","; r += ws[k][o.offset + i]; }
                    w.push_back(eff(valid, o, i, r + "}"));
                }
                n.buffers = {validity(valid, o)};
                return {n, w};
            };
        }
        FMaker funion(bool dense, std::vector<FMaker> ch, std::vector<int> mapping)
        {
            return [=](const Mask& valid, const FOpt& o) -> FMade
            {
                std::string f = dense ? "+ud:" : "+us:";
                for (std::size_t k = 0; k < mapping.size(); ++k) f += (k ? "," : "") + std::to_string(mapping[k]);
                auto n = base(f, valid, o); n.null_count = 0;
                const std::size_t nc = ch.size(), tot = o.offset + valid.size();
                std::vector<std::int8_t> ids; std::vector<std::int32_t> off; std::vector<std::size_t> sel; std::vector<Mask> cm(nc);
                for (std::size_t p = 0; p < tot; ++p)
                {
                    bool v = p < o.offset ? true : bool(valid[p - o.offset]);
                    std::size_t c = (p * p + std::size_t(o.salt)) % nc;
                    sel.push_back(c); ids.push_back(std::int8_t(mapping[c]));
                    if (dense) { if (o.garbage) cm[c].push_back(true); off.push_back(std::int32_t(cm[c].size())); cm[c].push_back(v); }
                    else for (std::size_t k = 0; k < nc; ++k) cm[k].push_back(k == c ? v : p % 2 == 0);
                }
                std::vector<ar::Strs> ws;
                for (std::size_t k = 0; k < nc; ++k) { auto c = ch[k](cm[k], copt(o, int(k))); n.children.push_back(c.n); ws.push_back(c.want); }
                ar::Strs w;
                for (std::size_t i = 0; i < valid.size(); ++i) { std::size_t p = o.offset + i; w.push_back(ws[sel[p]][dense ? std::size_t(off[p]) : p]); }
                n.buffers = {ar::raw(ids)};
                if (dense) n.buffers.push_back(ar::raw(off));
                return {n, w};
            };
        }
        template <class R> FMaker free_(std::string rf, FMaker child)
        {
            return [rf, child](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base("+r", valid, o); n.null_count = 0;
                const std::size_t tot = o.offset + valid.size();
                std::vector<R> ends; Mask cm;
                for (std::size_t p = 0; p < tot;)
                {
                    std::size_t len = 1 + (ends.size() + std::size_t(o.salt)) % 3;
                    cm.push_back(p < o.offset ? true : bool(valid[p - o.offset]));
                    p += len; if (!o.garbage) p = std::min(p, tot);
                    ends.push_back(R(p));
                }
                if (o.garbage) { cm.push_back(true); ends.push_back(R(ends.empty() ? 5 : ends.back() + 5)); }
                auto c = child(cm, copt(o, 1));
                FNode e; e.format = rf; e.length = std::int64_t(ends.size()); e.flags = 0; e.buffers = {std::nullopt, ar::raw(ends)}; e.name = "run_ends";
                c.n.name = "values";
                n.children = {e, c.n};
                ar::Strs w;
                for (std::size_t p = 0, r = 0; p < tot; ++p) { while (p >= std::size_t(ends[r])) ++r; if (p >= o.offset) w.push_back(c.want[r]); }
                return {n, w};
            };
        }
        template <class K> FMaker fdict(std::string kf, FMaker child)
        {
            return [kf, child](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(kf, valid, o);
                std::size_t d = 3;
                Mask dm(d, true); dm[2] = false;
                auto c = child(dm, copt(o, 1));
                std::vector<K> keys; ar::Strs w;
                for (std::size_t i = 0; i < o.offset; ++i) keys.push_back(o.garbage ? K(77) : K(0));
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    bool ok = valid[i] || o.no_validity;
                    K k = K((i * 2 + std::size_t(o.salt)) % d);
                    if (!ok && o.garbage) k = K(99);
                    keys.push_back(k); w.push_back(ok ? c.want[std::size_t(k)] : ar::null_());
                }
                n.buffers = {validity(valid, o), ar::raw(keys)};
                n.dictionary = {c.n};
                return {n, w};
            };
        }
        std::vector<FKind> fbuild()
        {
            FMaker i32 = fprim<std::int32_t>("i"), s = fstr, i64 = fprim<std::int64_t>("l"), f64 = fprim<double>("g");
            FMaker li = flist<std::int32_t>("+l", i32), st = fstruct({i32, s}), di = fdict<std::uint8_t>("C", s);
            return {
                {"i32", i32, false, true}, {"string", s, false, true}, {"list<i32>", li, true, true}, {"struct<i32,string>", st, true, true},
                {"dense<i32,string>", funion(true, {i32, s}, {0, 1}), true, false}, {"sparse<i32,string,f64>", funion(false, {i32, s, f64}, {4, 0, 2}), true, false},
                {"ree32<i32>", free_<std::int32_t>("i", i32), true, false}, {"dict8<string>", di, true, true}, {"null", fnull, false, false},
                {"i8", fprim<std::int8_t>("c"), false, true}, {"u8", fprim<std::uint8_t>("C"), false, true}, {"i16", fprim<std::int16_t>("s"), false, true},
                {"u16", fprim<std::uint16_t>("S"), false, true}, {"u32", fprim<std::uint32_t>("I"), false, true}, {"i64", i64, false, true}, {"u64", fprim<std::uint64_t>("L"), false, true},
                {"f16", fhalf, false, true}, {"f32", fprim<float>("f"), false, true}, {"f64", f64, false, true},
                {"biglist<string>", flist<std::int64_t>("+L", s), true, true}, {"listview<i32>", flist_view<std::int32_t>("+vl", i32), true, true},
                {"biglistview<string>", flist_view<std::int64_t>("+vL", s), true, true}, {"fixed2<i32>", ffixed(2, i32), true, true}, {"fixed3<string>", ffixed(3, s), true, true},
                {"ree16<string>", free_<std::int16_t>("s", s), true, false}, {"ree64<f64>", free_<std::int64_t>("l", f64), true, false},
                {"dict32<i64>", fdict<std::int32_t>("i", i64), true, true}, {"dict64<list>", fdict<std::uint64_t>("L", li), true, true}, {"dict16<struct>", fdict<std::int16_t>("s", st), true, true},
                {"dense-mapped<i32,string,list>", funion(true, {i32, s, li}, {7, 3, 100}), true, false},
                {"list<struct>", flist<std::int32_t>("+l", st), true, true}, {"struct<list,dict,i64>", fstruct({li, di, i64}), true, true},
                {"list<list<string>>", flist<std::int32_t>("+l", flist<std::int64_t>("+L", s)), true, true},
                {"struct<ree,fixed>", fstruct({free_<std::int32_t>("i", s), ffixed(2, s)}), true, true}, {"ree<struct>", free_<std::int32_t>("i", st), true, false},
                {"list<sparse>", flist<std::int32_t>("+l", funion(false, {i32, s}, {1, 0})), true, true}, {"list<null>", flist<std::int32_t>("+l", fnull), true, true},
                {"dense<list,struct>", funion(true, {li, st}, {0, 1}), true, false}, {"listview<dict>", flist_view<std::int32_t>("+vl", di), true, true},
                {"struct<struct>", fstruct({st, f64}), true, true}, {"struct<>", fstruct({}), true, true},
            };
        }
    }
    const std::vector<FKind>& fkinds() { static const auto* k = new std::vector<FKind>(fbuild()); return *k; }
    // ------------------------------------------------------------------ formats that only arrow_proxy reads
    namespace
    {
        template <class O> FMaker fvar(std::string f)
        {
            return [f](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(f, valid, o);
                std::vector<O> off; std::string data = o.garbage ? "##" : ""; ar::Strs w;
                off.push_back(O(data.size()));
                for (std::size_t i = 0; i < o.offset; ++i) { data += "Q"; off.push_back(O(data.size())); }
                for (std::size_t i = 0; i < valid.size(); ++i)
                {
                    auto x = word(i, o.salt);
                    if (f == "z" || f == "Z") for (auto& c : x) c = char(c ^ 0x9f);
                    data += x; off.push_back(O(data.size()));
                    w.push_back(eff(valid, o, i, f == "u" || f == "U" ? ar::text(x) : ar::bytes(x.data(), x.size())));
                }
                n.buffers = {validity(valid, o), ar::raw(off), ar::raws(data)};
                return {n, w};
            };
        }
        FMaker fview(std::string f, std::size_t nvar)
        {
            return [f, nvar](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(f, valid, o);
                std::vector<unsigned char> views; std::vector<std::string> var(nvar); ar::Strs w;
                for (std::size_t k = 0; k < nvar; ++k) var[k] = std::string(o.garbage ? k + 1 : 0, '#');
                for (std::size_t p = 0; p < o.offset + valid.size(); ++p)
                {
                    std::size_t len = (p * 13 + std::size_t(o.salt)) % 31;
                    if (nvar == 0) len %= 13;
                    std::string x;
                    for (std::size_t k = 0; k < len; ++k) x += char('a' + (p * 7 + k) % 26);
                    unsigned char v[16] = {};
                    std::int32_t l = std::int32_t(len); std::memcpy(v, &l, 4);
                    if (len <= 12) std::memcpy(v + 4, x.data(), len);
                    else
                    {
                        std::int32_t b = std::int32_t(p % nvar), at = std::int32_t(var[std::size_t(b)].size());
                        std::memcpy(v + 4, x.data(), 4); std::memcpy(v + 8, &b, 4); std::memcpy(v + 12, &at, 4); var[std::size_t(b)] += x;
                    }
                    views.insert(views.end(), v, v + 16);
                    if (p >= o.offset) w.push_back(eff(valid, o, p - o.offset, f == "vu" ? ar::text(x) : ar::bytes(x.data(), len)));
                }
                n.buffers = {validity(valid, o), views};
                std::vector<std::int64_t> sizes;
                for (auto& v : var) { n.buffers.push_back(ar::raws(v)); sizes.push_back(std::int64_t(v.size())); }
                n.buffers.push_back(ar::raw(sizes));
                return {n, w};
            };
        }
        FMaker fwidth(std::string f, std::size_t width)
        {
            return [f, width](const Mask& valid, const FOpt& o) -> FMade
            {
                auto n = base(f, valid, o);
                ar::Bytes b; ar::Strs w;
                for (std::size_t p = 0; p < o.offset + valid.size(); ++p)
                {
                    ar::Bytes x;
                    for (std::size_t k = 0; k < width; ++k) x.push_back(static_cast<unsigned char>(p * 17 + k * 5 + std::size_t(o.salt) + 1));
                    b.insert(b.end(), x.begin(), x.end());
                    if (p >= o.offset) w.push_back(eff(valid, o, p - o.offset, ar::bytes(x.data(), width)));
                }
                n.buffers = {validity(valid, o), b};
                return {n, w};
            };
        }
        FMade fbits(const Mask& valid, const FOpt& o)
        {
            auto n = base("b", valid, o);
            std::vector<bool> v; ar::Strs w;
            for (std::size_t p = 0; p < o.offset + valid.size(); ++p)
            {
                v.push_back((p * p + std::size_t(o.salt)) % 3 == 1);
                if (p >= o.offset) w.push_back(eff(valid, o, p - o.offset, v.back() ? "b1" : "b0"));
            }
            n.buffers = {validity(valid, o), ar::pack(v, o.garbage)};
            return {n, w};
        }
        FMade fmap(const Mask& valid, const FOpt& o)
        {
            auto r = flist<std::int32_t>("+l", fstruct({fstr, fprim<std::int32_t>("i")}))(valid, o);
            r.n.format = "+m"; r.n.children[0].name = "entries";
            return r;
        }
        std::vector<FKind> pbuild()
        {
            return {
                {"vu/0", fview("vu", 0), false, true}, {"vu/1", fview("vu", 1), false, true}, {"vu/2", fview("vu", 2), false, true}, {"vz/3", fview("vz", 3), false, true},
                {"z", fvar<std::int32_t>("z"), false, true}, {"Z", fvar<std::int64_t>("Z"), false, true}, {"U", fvar<std::int64_t>("U"), false, true},
                {"w:3", fwidth("w:3", 3), false, true}, {"w:16", fwidth("w:16", 16), false, true}, {"d:19,10", fwidth("d:19,10", 16), false, true}, {"d:9,2,32", fwidth("d:9,2,32", 4), false, true},
                {"d:18,3,64", fwidth("d:18,3,64", 8), false, true}, {"d:38,0,128", fwidth("d:38,0,128", 16), false, true}, {"d:76,10,256", fwidth("d:76,10,256", 32), false, true},
                {"tsn:UTC", fwidth("tsn:UTC", 8), false, true}, {"tdm", fwidth("tdm", 8), false, true}, {"tdD", fwidth("tdD", 4), false, true}, {"tts", fwidth("tts", 4), false, true}, {"ttm", fwidth("ttm", 4), false, true},
                {"ttu", fwidth("ttu", 8), false, true}, {"tDn", fwidth("tDn", 8), false, true}, {"tiM", fwidth("tiM", 4), false, true}, {"tiD", fwidth("tiD", 8), false, true}, {"tin", fwidth("tin", 16), false, true},
                {"b", fbits, false, true}, {"+m", fmap, true, true},
                {"list<U>", flist<std::int32_t>("+l", fvar<std::int64_t>("U")), true, true}, {"struct<vu,w,b>", fstruct({fview("vu", 2), fwidth("w:5", 5), fbits}), true, true},
                {"dict<vu>", fdict<std::int32_t>("i", fview("vu", 2)), true, true}, {"fixed<tdD>", ffixed(2, fwidth("tdD", 4)), true, true},
            };
        }
    }
    const std::vector<FKind>& pkinds() { static const auto* k = new std::vector<FKind>(pbuild()); return *k; }
}
