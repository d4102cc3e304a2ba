// P15: run-end encoded arrays show exactly the expanded sequence
#include "deep.hpp"
using namespace vp;
using namespace zu;

static const char* const CH[] = {"i32", "string", "list<i32>", "struct<i32,string>", "dict8<string>", "f64"};
struct Runs { std::vector<std::size_t> ends; std::size_t total = 0; };
static Runs runs(std::size_t maxr, std::size_t maxl)
{
    Runs r; std::size_t k = choose(std::uint32_t(maxr + 1));
    for (std::size_t i = 0; i < k; ++i) { r.total += 1 + choose(std::uint32_t(maxl)); r.ends.push_back(r.total); }
    return r;
}
static ar::Strs expand(const Runs& r, const ar::Strs& v, std::size_t b, std::size_t e)
{
    ar::Strs w;
    for (std::size_t p = b; p < e; ++p) { std::size_t k = 0; while (p >= r.ends[k]) ++k; w.push_back(v[k]); }
    return w;
}
template <class R> static ar::FNode ends_node(const char* f, const Runs& r, std::size_t co, bool absent)
{
    std::vector<R> e(co, R(-7));
    for (auto x : r.ends) e.push_back(R(x));
    auto n = fnode(f, std::int64_t(r.ends.size()), std::int64_t(co), {vbits(Mask(r.ends.size(), true), co, true, absent), ar::raw(e)});
    n.name = "run_ends"; n.flags = 0;
    return n;
}
static ar::FNode ends_of(int width, const Runs& r, std::size_t co, bool absent)
{
    return width == 0 ? ends_node<std::int16_t>("s", r, co, absent) : width == 1 ? ends_node<std::int32_t>("i", r, co, absent) : ends_node<std::int64_t>("l", r, co, absent);
}
static void positions(const sp::array& a, const ar::Strs& want)
{
    a.visit([&](const auto& t)
    {
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(t)>, sp::run_end_encoded_array>)
        {
            std::size_t i = 0;
            auto m = const_cast<sp::run_end_encoded_array&>(t).begin();
            for (auto it = t.cbegin(); it != t.cend(); it++, ++m, ++i)
            {
                VP_CHECK(i < want.size(), "iteration goes past the end");
                VP_CHECK(sc::canon(*it) == want[i] && sc::canon(*m) == want[i], "iteration at %zu", i);
                VP_CHECK(sc::canon(const_cast<sp::run_end_encoded_array&>(t)[i]) == want[i], "mutable operator[] at %zu", i);
            }
            VP_CHECK(i == want.size(), "iteration visits %zu elements, expected %zu", i, want.size());
            VP_CHECK(m == const_cast<sp::run_end_encoded_array&>(t).end(), "mutable iteration does not end");
            VP_CHECK(t == t, "array differs from itself");
        }
        else VP_CHECK(false, "wrong layout");
    });
}
static void foreign(std::size_t maxr, std::size_t maxl, std::size_t kinds, bool win)
{
    LeakScope l;
    const char* k = CH[choose(std::uint32_t(kinds))];
    const int width = int(choose(3));
    auto r = runs(maxr, maxl);
    const std::size_t co = choose(2), vo = choose(2);
    Mask m = mask_of(r.ends.size());
    const std::size_t b = choose(std::uint32_t(r.total + 1)), e = b + choose(std::uint32_t(r.total - b + 1));
    auto v = child(k, m, vo);
    v.n.name = "values";
    auto n = fnode("+r", std::int64_t(e - b), std::int64_t(b), {}, {ends_of(width, r, co, (b + e) % 2), v.n});
    const auto w = expand(r, v.want, b, e);
    note([&] { std::string s; for (auto x : r.ends) s += std::to_string(x) + " "; return fmt("%s values %s, run ends %s(width %d, offset %zu), values offset %zu, window [%zu,%zu)", k, show(m).c_str(), s.c_str(), width, co, vo, b, e); });
    imported(n, w, win);
    if (!win) { ar::Tracker t; { sp::array a(n.array(t), n.schema(t)); positions(a, w); t.unchanged(); } t.check(0, 0); }
}
template <class R> static sp::array acc(const Runs& r, int how, ar::Tracker& t)
{
    std::vector<R> e; for (auto x : r.ends) e.push_back(R(x));
    if (how == 0) return sp::array(sp::primitive_array<R>(e));
    std::vector<R> l{R(1)}; for (auto x : e) l.push_back(x); l.push_back(R(120));
    if (how == 1) return sp::array(sp::primitive_array<R>(l)).slice(1, 1 + e.size());
    std::string f = sizeof(R) == 2 ? "s" : sizeof(R) == 4 ? "i" : "l";
    if (std::is_unsigned_v<R>) f[0] = char(f[0] - 'a' + 'A');
    auto n = fnode(f, std::int64_t(e.size()), 1, {vbits(Mask(e.size(), true), 1, true, true), ar::raw(l)});
    return sp::array(n.array(t), n.schema(t));
}
template <class R> static void built(std::size_t maxr, std::size_t maxl)
{
    LeakScope l;
    ar::Tracker t;
    const char* k = CH[choose(tier(2, 3))];
    auto r = runs(maxr, maxl);
    Mask m = mask_of(r.ends.size());
    int how = int(choose(3)), vhow = int(choose(4));
    if (how == 2 && std::is_unsigned_v<R>) prune();    // foreign run ends are signed
    {
        auto v = flat(k, k, m, vhow, t);
        const auto w = expand(r, v.want, 0, r.total);
        note([&] { std::string s; for (auto x : r.ends) s += std::to_string(x) + " "; return fmt("built from run ends %s(%zu bytes, %s, way %d) and %s %s (way %d)", s.c_str(), sizeof(R), std::is_signed_v<R> ? "signed" : "unsigned", how, k, show(m).c_str(), vhow); });
        sp::run_end_encoded_array x(acc<R>(r, how, t), std::move(v.a));
        VP_CHECK(x.size() == w.size(), "size");
        typed(x, w, "built runs");
        sp::array a(std::move(x));
        positions(a, w);
        deep(a, w);
    }
    t.check(0, 0);
}
// run lengths near the limits of the run end types
static void large()
{
    LeakScope l;
    static const std::size_t ls[] = {1, 127, 128, 255, 256, 32766, 32767, 65536, 100000};
    std::size_t a = ls[choose(9)], b = ls[choose(5)]; int width = int(choose(3));
    if (width == 0 && a + b > 32767) prune();
    Runs r; r.ends = {a, a + b}; r.total = a + b;
    auto v = child("string", {true, false}, 0);
    bool win = flip();
    std::size_t s = win ? a - 1 : 0;
    auto n = fnode("+r", std::int64_t(r.total - s), std::int64_t(s), {}, {ends_of(width, r, 0, true), v.n});
    ar::Tracker t;
    {
        sp::array x(n.array(t), n.schema(t));
        VP_CHECK(x.size() == r.total - s, "size");
        for (std::size_t i : {std::size_t(0), a - 1, a, r.total - 1})
            if (i >= s) VP_CHECK(sc::canon(x[i - s]) == v.want[i < a ? 0 : 1], "element %zu", i);
        std::size_t cnt = 0, first = 0;
        x.visit([&](const auto& y) { for (auto it = y.begin(); it != y.end(); ++it) { ++cnt; first += (*it).has_value(); } });
        VP_CHECK(cnt == r.total - s && first == a - s, "iteration: %zu elements, %zu of the first run", cnt, first);
    }
    t.check(0, 0);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("imported: all windows", [] { foreign(3, tier(2, 3), tier(2, 6), false); });
        add("imported: nested values", [] { foreign(2, 3, 6, false); });
        add("imported: four runs", [] { foreign(4, 2, 3, false); }, {.thorough_only = true});
        add("imported: slices and copies", [] { foreign(2, 2, tier(2, 6), true); });
        add("built u16", [] { built<std::uint16_t>(tier(2, 3), 3); });
        add("built u32", [] { built<std::uint32_t>(2, 2); });
        add("built u64", [] { built<std::uint64_t>(2, 2); });
        add("built i16", [] { built<std::int16_t>(2, 2); });
        add("built i32", [] { built<std::int32_t>(2, tier(2, 3)); });
        add("built i64", [] { built<std::int64_t>(2, 2); });
        add("large runs", large);
    });
}
