// P09: string arrays behave like a vector of optional strings over every history
#include "mut.hpp"
using namespace vp;
using namespace zu;
using A = sp::string_array;
using V = A::value_type;

static std::string text(const std::string& v) { return ar::text(v); }
static mut::menu_t<A> menu(bool wide)
{
    mut::menu_t<A> m;
    m.push_back({V(std::string("xyz")), text("xyz")});
    m.push_back({V(std::string("hid"), false), ar::null_()});        // a null with a hidden value
    m.push_back({V(std::string()), text("")});
    if (wide) { m.push_back({V(), ar::null_()}); m.push_back({V(std::string(20, 'q')), text(std::string(20, 'q'))}); }
    return m;
}
static void history(std::uint32_t depth, std::vector<std::size_t> sizes, std::size_t limit, bool patterns, bool wide)
{
    LeakScope l;
    const std::size_t n = pick(sizes);
    const int form = int(choose(6));
    std::size_t lead = form == 3 || form == 4 ? 2 : 0, trail = form == 3 ? 1 : 0;
    const std::size_t all = n + lead + trail;
    // lengths: each element is empty, short or longer
    std::vector<std::string> v; Mask m(all, true); ar::Strs w;
    for (std::size_t i = 0; i < all; ++i)
    {
        const bool chosen = patterns && i >= lead && i < lead + n;
        const std::uint32_t kind = chosen ? choose(3) : std::uint32_t(i % 4);
        if (kind == 0) v.push_back("");
        else if (kind == 1) v.push_back(std::string(1 + i % 3, char('a' + i % 26)));
        else { v.push_back(kind == 2 && chosen ? "hidden" : "zz"); if (kind != 3 && form != 1) m[i] = false; }
        w.push_back(m[i] ? text(v[i]) : ar::null_());
    }
    note([&] { return fmt("%zu elements form %d:", n, form); });
    note([&] { std::string r; for (auto& t : w) r += t + " "; return r; });
    auto build = [&]() -> A
    {
        if (form == 1) return A(v);                        // no validity
        if (form == 2) { std::vector<bool> b(m); return A(v, b); }
        std::vector<V> r; for (std::size_t i = 0; i < all; ++i) r.push_back(V(v[i], m[i]));
        return A(r);
    };
    std::optional<A> src(build());
    ar::Strs want = w;
    std::optional<A> x;
    if (form == 3 || form == 4) { x.emplace(A(src->slice(lead, lead + n))); want = sub(w, lead, lead + n); }
    else if (form == 5)
    {
        sp::array e{A(*src)};
        e.visit([&](const auto& t) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(t)>, A>) x.emplace(t); });
        VP_CHECK(x.has_value(), "visited with another layout");
    }
    else x.emplace(*src);
    mut::Run<A> r{std::move(*x), want, menu(wide), {}, [&] { VP_SAME(sc::shown(std::as_const(*src)), w, "the source of the slice or copy"); }};
    r.go(depth, limit);
}
static void imported(std::uint32_t depth)
{
    LeakScope l;
    std::size_t k = 0; while (zoo::fkinds()[k].name != "string") ++k;
    Mask m; for (std::size_t i = 0, n = choose(3); i < n; ++i) m.push_back(!flip());
    auto o = choose_fopt(true, m, {0, 3, 9}, {0});
    note([&] { return fmt("foreign string valid=%s %s", show(m).c_str(), show(o).c_str()); });
    Source s; s.import(k, m, o, 0);
    std::optional<A> x;
    s.a->visit([&](const auto& t) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(t)>, A>) { if (flip()) x.emplace(t); else x.emplace(t.slice(0, t.size())); } });
    VP_CHECK(x.has_value(), "visited with another layout");
    mut::Run<A> r{std::move(*x), s.want, menu(false), {}, [&] { s.t.unchanged(); }};
    r.go(depth, 8);
}
// the references themselves: iteration, comparison, assignment from any range of characters
static void references()
{
    LeakScope l;
    const std::vector<std::string> words = {"", "a", "ab", "abc", "b"};
    std::vector<std::string> v; for (int i = 0; i < 3; ++i) v.push_back(pick(words));
    A x(v);
    const std::size_t i = choose(3), lead = choose(2);
    A y(lead ? x.slice(1, 3) : x);
    if (i >= y.size()) prune();
    auto at = [&](std::size_t k) -> std::string& { return v[k + lead]; };
    const std::string before = at(i);
    const std::string u = pick(words);
    switch (choose(8))
    {
        case 0: y[i].get() = u; at(i) = u; break;
        case 1: y[i].get() = std::string_view(u); at(i) = u; break;
        case 2: y[i].get() = std::vector<char>(u.begin(), u.end()); at(i) = u; break;
        case 3: { const std::size_t j = choose(std::uint32_t(y.size())); y[i].get() = y[j].get(); at(i) = at(j); break; }
        case 4: { const std::size_t j = choose(std::uint32_t(y.size())); y[i] = sp::make_nullable(std::string_view(u)); y[j] = sp::nullval; y[j] = sp::make_nullable(std::string_view(u)); at(i) = u; at(j) = u; break; }
        case 5: y[i].get() = u.c_str(); at(i) = u; break;
        case 6: VP_CHECK((y[i].get() == u) == (before == u), "comparison with a string"); break;
        case 7: { auto r = y[i].get(); std::string t(r.begin(), r.end()), s(std::make_reverse_iterator(r.cend()), std::make_reverse_iterator(r.cbegin())); VP_CHECK(t == before && s == std::string(before.rbegin(), before.rend()) && r.size() == before.size(), "iteration of a reference"); break; }
    }
    for (std::size_t k = 0; k < y.size(); ++k)
    {
        VP_CHECK(std::as_const(y)[k].has_value() && std::as_const(y)[k].get() == at(k), "element %zu", k);
        VP_CHECK(y[k].get() == at(k), "mutable element %zu", k);
        for (std::size_t j = 0; j < y.size(); ++j) VP_CHECK((y[k].get() == y[j].get()) == (at(k) == at(j)), "comparison of elements %zu and %zu", k, j);
    }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("small", [] { history(2, {0, 1, 2}, 6, true, false); }, {.stateful = true});
        add("three steps", [] { history(tier(3, 4), {0, 1}, 4, true, false); }, {.stateful = true, .thorough_only = false});
        add("wide menu", [] { history(tier(1, 2), {2, 3}, 8, true, true); }, {.stateful = true});
        add("around a byte", [] { history(tier(1, 2), {6, 7, 8, 9}, 17, false, false); }, {.stateful = true});
        add("imported", [] { imported(tier(1, 2)); }, {.stateful = true});
        add("references", references);
    });
}
