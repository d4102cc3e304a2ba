// P08: primitive arrays behave like a vector of optionals over every history
#include "mut.hpp"
using namespace vp;
using namespace zu;

template <class T> static std::string text(T v) { return sc::canon_value(v); }
template <class T> static mut::menu_t<sp::primitive_array<T>> menu(bool wide)
{
    using V = sp::nullable<T>;
    mut::menu_t<sp::primitive_array<T>> m;
    m.push_back({V(T(7)), text(T(7))});
    m.push_back({V(T(9), false), ar::null_()});            // a null with a hidden value
    if (wide) m.push_back({V(T(0)), text(T(0))});
    return m;
}
// how the array under test was obtained
template <class T> static void history(std::uint32_t depth, std::vector<std::size_t> sizes, std::size_t limit, bool patterns)
{
    LeakScope l;
    using A = sp::primitive_array<T>;
    const std::size_t n = pick(sizes);
    // known finding: booleans are stored one per byte under the bit-packed format, so that copies and slices lose values
    constexpr bool broken_copies = std::is_same_v<T, bool>;
    const int form = int(choose(broken_copies ? 3 : 6));
    std::size_t lead = form == 3 || form == 4 ? 2 : 0, trail = form == 3 ? 1 : 0;
    const std::size_t all = n + lead + trail;
    Mask m(all, true);
    if (form != 1) { if (patterns) for (std::size_t i = 0; i < all; ++i) m[i] = !flip(); else m = zoo::choose_mask(all, 1); }
    note([&] { return fmt("%zu elements valid=%s form %d", n, show(m).c_str(), form); });
    std::vector<T> v; ar::Strs w;
    for (std::size_t i = 0; i < all; ++i) { v.push_back(T(int(std::is_same_v<T, bool> ? i % 3 == 1 : i + 1))); w.push_back(m[i] ? text(T(v[i])) : ar::null_()); }
    auto build = [&]() -> A
    {
        if (form == 1) return A(v);                        // no validity
        std::vector<sp::nullable<T>> r; for (std::size_t i = 0; i < all; ++i) r.push_back(sp::nullable<T>(v[i], m[i]));
        if (form == 2) { std::vector<bool> b(m); return A(v, b); }
        return A(r);
    };
    if constexpr (broken_copies)
    {
        mut::Run<A> r{build(), w, menu<T>(thorough()), {false, false}};
        r.go(depth, limit);
        auto [pa, ps] = sp::get_arrow_structures(r.x);
        if (ar::decode_all(*ps, *pa) != r.w) cover("KF:bool-layout");
        return;
    }
    std::optional<A> src(build());
    ar::Strs want = w;
    std::optional<A> x;
    if (form == 3 || form == 4) { x.emplace(A(src->slice(lead, lead + n))); want = sub(w, lead, lead + n); }
    else if (form == 5)                                    // through the erased array
    {
        sp::array e{A(*src)};
        e.visit([&](const auto& t) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(t)>, A>) x.emplace(t); });
        VP_CHECK(x.has_value(), "visited with another layout");
    }
    else x.emplace(*src);
    mut::Run<A> r{std::move(*x), want, menu<T>(thorough()), {}, [&] { VP_SAME(sc::shown(std::as_const(*src)), w, "the source of the slice or copy"); }};
    r.go(depth, limit);
}
// copies and slices of foreign arrays at an offset
static void imported(std::uint32_t depth)
{
    LeakScope l;
    using A = sp::primitive_array<std::int32_t>;
    std::size_t k = 0; while (zoo::fkinds()[k].name != "i32") ++k;
    Mask m; for (std::size_t i = 0, n = choose(4); i < n; ++i) m.push_back(!flip());
    auto o = choose_fopt(true, m, {0, 3, 9}, {0});
    note([&] { return fmt("foreign i32 valid=%s %s", show(m).c_str(), show(o).c_str()); });
    Source s; s.import(k, m, o, 0);
    std::optional<A> x;
    s.a->visit([&](const auto& t) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(t)>, A>) { if (flip()) x.emplace(t); else x.emplace(t.slice(0, t.size())); } });
    VP_CHECK(x.has_value(), "visited with another layout");
    mut::Run<A> r{std::move(*x), s.want, menu<std::int32_t>(false), {}, [&] { s.t.unchanged(); }};
    r.go(depth, 8);
}
// an imported array assigned in place; operations that need memory of sparrow's are refused
static void in_place()
{
    LeakScope l;
    using A = sp::primitive_array<std::int32_t>;
    std::size_t k = 0; while (zoo::fkinds()[k].name != "i32") ++k;
    const std::size_t n = pick(thorough() ? std::vector<std::size_t>{1, 3, 9} : std::vector<std::size_t>{1, 2});
    Mask m = zoo::choose_mask(n, 3);
    auto o = choose_fopt(true, m, {0, 3, 9}, {0});
    note([&] { return fmt("foreign i32 valid=%s %s", show(m).c_str(), show(o).c_str()); });
    auto f = zoo::fmake(k, m, o); ar::Tracker t; t.writable = true;
    {
        A x(sp::arrow_proxy(f.n.array(t), f.n.schema(t)));
        auto w = f.want;
        auto check = [&] { VP_SAME(sc::shown(std::as_const(x)), w, "elements"); VP_SAME(sc::iterated(x), w, "mutable iteration"); auto [a, s] = sp::get_arrow_structures(x); VP_SAME(ar::decode_all(*s, *a), w, "exported"); };
        for (int step = 0; step < 2; ++step)
        {
            const std::size_t i = choose(std::uint32_t(n));
            const sp::nullable<std::int32_t> v(77 + step);
            switch (choose(10))
            {
                case 0: note([&] { return fmt("[%zu] = value", i); }); x[i] = v; w[i] = text(77 + step); break;
                case 1: note([&] { return fmt("*(begin + %zu) = value", i); }); *(x.begin() + std::ptrdiff_t(i)) = v; w[i] = text(77 + step); break;
                case 2: if (o.no_validity) prune(); note([&] { return fmt("[%zu] = null", i); }); x[i] = sp::nullval; w[i] = ar::null_(); break;
                case 3: { const std::size_t j = choose(std::uint32_t(n)); if (o.no_validity && w[j] == ar::null_()) prune(); note([&] { return fmt("[%zu] = [%zu]", i, j); }); x[i] = x[j]; w[i] = w[j]; break; }
                case 4: note([&] { return fmt("insert at %zu", i); }); VP_THROWS(sp::arrow_proxy_exception, x.insert(x.cbegin() + std::ptrdiff_t(i), v)); break;
                case 5: note([] { return std::string("push_back"); }); VP_THROWS(sp::arrow_proxy_exception, x.push_back(v)); break;
                case 6: note([] { return std::string("pop_back"); }); VP_THROWS(sp::arrow_proxy_exception, x.pop_back()); break;
                case 7: note([&] { return fmt("erase %zu", i); }); VP_THROWS(sp::arrow_proxy_exception, x.erase(x.cbegin() + std::ptrdiff_t(i))); break;
                case 8: note([&] { return fmt("resize %zu", i); }); VP_THROWS(sp::arrow_proxy_exception, x.resize(i, v)); break;
                case 9: { std::vector<sp::nullable<std::int32_t>> r(2, v); VP_THROWS(sp::arrow_proxy_exception, x.insert(x.cbegin() + std::ptrdiff_t(i), r.begin(), r.end())); break; }
            }
            check();
        }
        A y(x);
        VP_SAME(sc::shown(std::as_const(y)), w, "copy");
    }
    t.check(0, 0);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("int32, small", [] { history<std::int32_t>(tier(2, 4), {0, 1, 2}, tier(6, 7), true); }, {.stateful = true});
        add("int32, around a byte", [] { history<std::int32_t>(tier(1, 2), {6, 7, 8, 9}, 17, false); }, {.stateful = true});
        add("int32, imported", [] { imported(tier(1, 2)); }, {.stateful = true});
        add("imported, assigned in place", in_place);
        add("int8", [] { history<std::int8_t>(tier(1, 2), {0, 2, 8}, 12, false); }, {.stateful = true});
        add("float64", [] { history<double>(tier(1, 2), {0, 2, 8}, 12, false); }, {.stateful = true});
        add("int64", [] { history<std::int64_t>(tier(1, 2), {1, 3}, 12, false); }, {.stateful = true});
        add("float16", [] { history<sp::float16_t>(tier(1, 2), {1, 3}, 12, false); }, {.stateful = true});
        add("bool", [] { history<bool>(tier(2, 3), {0, 1, 2}, 6, true); }, {.stateful = true});
        add("many null patterns", [] { history<std::int32_t>(1, {5}, 12, true); }, {.stateful = true, .thorough_only = true});
    });
}
