// P14: struct and union arrays show exactly the records the Arrow format defines
#include "deep.hpp"
using namespace vp;
using namespace zu;

static const char* const CH[] = {"i32", "string", "list<i32>", "dict8<string>", "dense<i32,string>", "null"};

static Mask pattern(std::size_t c, std::uint32_t k) { Mask m(c, true); if (k) for (std::size_t i = 0; i < c; ++i) m[i] = (i + k) % 2; return m; }
static std::string record(const std::vector<ar::Strs>& c, std::size_t i)
{
    std::string r = "{";
    for (std::size_t k = 0; k < c.size(); ++k) { if (k) r += ","; r += c[k][i]; }
    return r + "}";
}
static void values(const sp::struct_array& t, const ar::Strs& want, const std::vector<ar::Strs>& ch, std::size_t off)
{
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        auto x = t[i];
        VP_CHECK(x.has_value() == (want[i] != ar::null_()), "record %zu", i);
        if (!x.has_value()) continue;
        VP_CHECK(x.get().size() == ch.size(), "record %zu has %zu fields", i, x.get().size());
        for (std::size_t k = 0; k < ch.size(); ++k) VP_CHECK(sc::canon(x.get()[k]) == ch[k][off + i], "record %zu field %zu", i, k);
        for (std::size_t j = 0; j < want.size(); ++j)
        {
            auto y = t[j];
            if (y.has_value()) VP_CHECK((x.get() == y.get()) == (want[i] == want[j]) && (x == y) == (want[i] == want[j]), "records %zu and %zu: == is wrong", i, j);
            else VP_CHECK(!(x == y) && !(y == x), "record equal to null");
        }
    }
    for (std::size_t k = 0; k < ch.size(); ++k)
    {
        const auto* f = t.raw_child(k);
        VP_CHECK(sp::array_size(*f) == ch[k].size(), "child %zu has %zu elements, expected %zu", k, sp::array_size(*f), ch[k].size());
        for (std::size_t i = 0; i < ch[k].size(); ++i) VP_CHECK(sc::canon(sp::array_element(*f, i)) == ch[k][i], "child %zu element %zu", k, i);
    }
}
static void structs(std::size_t maxn, std::size_t maxk, bool win)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(maxk + 1)), n = choose(std::uint32_t(maxn + 1)), P = choose(3), extra = choose(2), first = choose(win ? 2 : tier(3, 5));
    Mask m = mask_of(n);
    bool absent = all(m) && flip();
    auto node = fnode("+s", std::int64_t(n), std::int64_t(P), {vbits(m, P, P != 0, absent)});
    node.null_count = nulls(m);
    std::vector<ar::Strs> cw; std::string desc;
    for (std::size_t i = 0; i < k; ++i)
    {
        const char* kind = CH[(first + i) % 5];
        std::size_t co = choose(win ? 2 : tier(2, 3)), pat = choose(win ? 2 : k > 2 ? 2 : 3);
        auto c = child(kind, pattern(P + n + extra, std::uint32_t(pat)), co, int(i));
        c.n.name = "f" + std::to_string(i);
        note([&] { return fmt("child %s of %zu (offset %zu): %s", kind, P + n + extra, co, ar::join(c.want).c_str()); });
        node.children.push_back(c.n); cw.push_back(c.want);
    }
    ar::Strs w;
    for (std::size_t i = 0; i < n; ++i) w.push_back(m[i] ? record(cw, P + i) : ar::null_());
    note([&] { return fmt("struct of %zu children, length %zu offset %zu valid %s", k, n, P, show(m).c_str()); });
    imported(node, w, win);
    if (!win)
    {
        ar::Tracker t;
        { sp::array a(node.array(t), node.schema(t)); a.visit([&](const auto& x) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, sp::struct_array>) values(x, w, cw, P); else VP_CHECK(false, "wrong layout"); }); t.unchanged(); }
        t.check(0, 0);
    }
}
static const char* const BK[] = {"i32", "string", "list<i32>", "dict8<string>"};
static void built_structs()
{
    LeakScope l;
    ar::Tracker t;
    std::size_t k = 1 + choose(3), n = choose(tier(3, 4)), first = choose(4);
    Mask m = mask_of(n);
    {
        std::vector<sp::array> cs; std::vector<ar::Strs> cw;
        for (std::size_t i = 0; i < k; ++i)
        {
            const char* b = BK[(first + i) % 4];
            auto x = flat(b, b, pattern(n, std::uint32_t(i % 2)), int(choose(k > 2 ? 2 : 4)), t, int(i));
            cs.push_back(std::move(x.a)); cw.push_back(x.want);
        }
        ar::Strs w;
        for (std::size_t i = 0; i < n; ++i) w.push_back(m[i] ? record(cw, i) : ar::null_());
        note([&] { return fmt("built struct of %zu children from %s, valid %s", k, BK[first], show(m).c_str()); });
        sp::struct_array s = all(m) && flip() ? sp::struct_array(std::move(cs)) : sp::struct_array(std::move(cs), m);
        values(s, w, cw, 0); typed(s, w, "built struct");
        sp::array a(std::move(s));
        deep(a, w);
    }
    t.check(0, 0);
}
static const std::vector<std::vector<int>> MAPS[] = {
    {{}}, {{0}, {5}, {127}}, {{0, 1}, {1, 0}, {7, 3}, {5, 127}, {2, 1}}, {{0, 1, 2}, {2, 0, 1}, {10, 1, 100}, {1, 2, 3}, {127, 126, 0}, {2, 1, 0}}};

static void unions(bool dense, std::size_t maxn, std::size_t maxP, bool win)
{
    LeakScope l;
    std::size_t k = 1 + choose(win ? 2 : 3), n = choose(std::uint32_t(maxn + 1)), P = choose(std::uint32_t(maxP + 1)), first = choose(win ? 2 : tier(2, 4)), co = choose(2), extra = choose(2);
    const auto& maps = MAPS[k];
    const auto mp = maps[choose(std::uint32_t(win ? std::min<std::size_t>(maps.size(), 3) : maps.size()))];
    const std::size_t tot = P + n, c = dense ? 2 : tot + extra;
    std::vector<std::int8_t> ids; std::vector<std::int32_t> off; std::vector<std::size_t> sel; std::vector<std::int32_t> last(k, 0);
    for (std::size_t p = 0; p < tot; ++p)
    {
        std::size_t s = choose(std::uint32_t(k));
        sel.push_back(s); ids.push_back(std::int8_t(mp[s]));
        if (dense) { last[s] += std::int32_t(choose(std::uint32_t(2 - last[s]))); off.push_back(last[s]); }     // offsets of a child never decrease
    }
    std::string f = dense ? "+ud:" : "+us:";
    for (std::size_t i = 0; i < k; ++i) f += (i ? "," : "") + std::to_string(mp[i]);
    auto node = fnode(f, std::int64_t(n), std::int64_t(P), {ar::raw(ids)});
    if (dense) node.buffers.push_back(ar::raw(off));
    std::vector<ar::Strs> cw;
    for (std::size_t i = 0; i < k; ++i)
    {
        auto x = child(CH[(first + i) % 5], pattern(c, std::uint32_t(i + 1)), co, int(i));
        x.n.name = "f" + std::to_string(i);
        node.children.push_back(x.n); cw.push_back(x.want);
    }
    ar::Strs w;
    for (std::size_t i = 0; i < n; ++i) w.push_back(cw[sel[P + i]][dense ? std::size_t(off[P + i]) : P + i]);
    note([&] { std::string s; for (std::size_t p = 0; p < tot; ++p) s += fmt("%zu@%zu ", sel[p], dense ? std::size_t(off[p]) : p); return fmt("%s of %s.. (offset %zu), length %zu offset %zu: %s", f.c_str(), CH[first], co, n, P, s.c_str()); });
    imported(node, w, win);
}
static void built_unions(bool dense)
{
    LeakScope l;
    ar::Tracker t;
    std::size_t k = 1 + choose(3), n = choose(tier(4, 5)), first = choose(tier(2, 4));
    const auto& maps = MAPS[k];
    std::size_t mi = choose(std::uint32_t(maps.size() + 1));
    int how = int(choose(n < 3 ? 4 : 2));
    {
        std::vector<std::size_t> sel; std::vector<std::uint8_t> ids; std::vector<std::uint32_t> off, last(k, 0);
        for (std::size_t i = 0; i < n; ++i)
        {
            std::size_t s = choose(std::uint32_t(k));
            sel.push_back(s); ids.push_back(std::uint8_t(mi == 0 ? int(s) : maps[mi - 1][s]));
            if (dense) { last[s] += choose(n > 3 ? 1 : std::uint32_t(2 - last[s])); off.push_back(last[s]); if (n > 3 && last[s] == 0) last[s] = 1; }
        }
        std::vector<sp::array> cs; std::vector<ar::Strs> cw;
        for (std::size_t i = 0; i < k; ++i)
        {
            const char* b = BK[(first + i) % 4];
            auto x = flat(b, b, pattern(dense ? 2 : n, std::uint32_t(i + 1)), how, t, int(i));
            cs.push_back(std::move(x.a)); cw.push_back(x.want);
        }
        ar::Strs w;
        for (std::size_t i = 0; i < n; ++i) w.push_back(cw[sel[i]][dense ? off[i] : i]);
        note([&] { return fmt("built %s union of %zu children, mapping %zu, way %d, wants %s", dense ? "dense" : "sparse", k, mi, how, ar::join(w).c_str()); });
        auto go = [&](auto u) { typed(u, w, "built union"); sp::array a(std::move(u)); deep(a, w, n < 4); };
        std::vector<std::uint8_t> mp; if (mi) for (int x : maps[mi - 1]) mp.push_back(std::uint8_t(x));
        using B = sp::u8_buffer<std::uint8_t>; using O = sp::u8_buffer<std::uint32_t>;
        if (dense) { if (mi) go(sp::dense_union_array(std::move(cs), B(ids), O(off), mp)); else go(sp::dense_union_array(std::move(cs), B(ids), O(off))); }
        else { if (mi) go(sp::sparse_union_array(std::move(cs), B(ids), mp)); else go(sp::sparse_union_array(std::move(cs), B(ids))); }
    }
    t.check(0, 0);
}
// unions with many children: every type id of a wide mapping is found
static void wide(bool dense)
{
    LeakScope l;
    static const std::size_t ks[] = {11, 101, 127, 128};
    std::size_t k = ks[choose(4)]; int order = int(choose(3)); bool built = flip();
    std::vector<int> mp;
    for (std::size_t i = 0; i < k; ++i) mp.push_back(int(order == 0 ? i : order == 1 ? k - 1 - i : (i * 37 + 5) % 128));
    std::string f = dense ? "+ud:" : "+us:";
    for (std::size_t i = 0; i < k; ++i) f += (i ? "," : "") + std::to_string(mp[i]);
    std::vector<std::uint8_t> ids; std::vector<std::uint32_t> off; ar::Strs w;
    std::vector<sp::array> cs; std::vector<ar::FNode> ns;
    for (std::size_t i = 0; i < k; ++i)
    {
        ids.push_back(std::uint8_t(mp[i])); off.push_back(0);
        std::size_t len = dense ? 1 : k;
        if (built) { auto x = zoo::make(kind("i32"), Mask(len, true), int(i) * 1000); w.push_back(x.want[dense ? 0 : i]); cs.push_back(std::move(x.a)); }
        else { auto x = child("i32", Mask(len, true), 0, int(i) * 1000); w.push_back(x.want[dense ? 0 : i]); ns.push_back(x.n); }
    }
    note([&] { return fmt("%zu children, order %d, %s", k, order, built ? "built" : "imported"); });
    if (built)
    {
        using B = sp::u8_buffer<std::uint8_t>; using O = sp::u8_buffer<std::uint32_t>;
        std::vector<std::uint8_t> m8(mp.begin(), mp.end());
        sp::array a = dense ? sp::array(sp::dense_union_array(std::move(cs), B(ids), O(off), m8)) : sp::array(sp::sparse_union_array(std::move(cs), B(ids), m8));
        full(a, w, "wide union"); typed(a, w, "wide union"); sp::array c(a); full(c, w, "copy of a wide union");
    }
    else
    {
        auto node = fnode(f, std::int64_t(k), 0, {ar::raw(ids)}, ns);
        if (dense) node.buffers.push_back(ar::raw(off));
        imported(node, w, false);
    }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("structs", [] { structs(tier(2, 3), tier(2, 3), false); });
        add("structs of three", [] { structs(1, 3, false); });
        add("structs: slices and copies", [] { structs(2, 2, true); });
        add("built structs", built_structs);
        add("dense unions", [] { unions(true, tier(2, 3), 1, false); });
        add("sparse unions", [] { unions(false, tier(3, 4), 1, false); });
        add("dense unions: slices and copies", [] { unions(true, 2, tier(1, 2), true); });
        add("sparse unions: slices and copies", [] { unions(false, 2, tier(1, 2), true); });
        add("built dense unions", [] { built_unions(true); });
        add("built sparse unions", [] { built_unions(false); });
        add("wide dense unions", [] { wide(true); });
        add("wide sparse unions", [] { wide(false); });
    });
}
