// P19: record_batch keeps names and columns matched over every history
#include "src.hpp"
#include <sparrow/record_batch.hpp>
#include <list>
#include <ranges>
using namespace vp;
using namespace zu;

struct Cols { std::vector<std::string> names; std::vector<ar::Strs> want; };
struct Slot { std::optional<sp::record_batch> b; std::optional<Cols> m; };      // no model: moved from

template <class F> static bool out_of_range(F f) { try { (void) f(); return false; } catch (const std::out_of_range&) { return true; } }

static const std::vector<std::string>& all_names()
{
    static const std::vector<std::string> v{"a", "", "a column whose name is too long to be stored in place", std::string("nul\0nul", 7), "b", "A"};
    return v;
}
static bool is_in(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }

static void matched(const sp::record_batch& b, const std::optional<Cols>& m, const char* what)
{
    const std::size_t n = b.nb_columns();
    if (m) VP_CHECK(n == m->names.size(), "%s: %zu columns, expected %zu", what, n, m->names.size());
    VP_CHECK(std::ranges::size(b.names()) == n && std::ranges::size(b.columns()) == n, "%s: %zu names and %zu columns", what, std::ranges::size(b.names()), std::ranges::size(b.columns()));
    std::vector<std::string> names(b.names().begin(), b.names().end());
    if (m) VP_SAME(names, m->names, "%s: names", what);
    const std::size_t rows = b.nb_rows();
    if (m && n) VP_CHECK(rows == m->want[0].size(), "%s: %zu rows, expected %zu", what, rows, m->want[0].size());
    if (!n) VP_CHECK(rows == 0, "%s: rows without columns", what);
    std::size_t i = 0;
    for (const sp::array& c : b.columns())
    {
        VP_CHECK(c.size() == rows, "%s: column %zu has %zu rows of %zu", what, i, c.size(), rows);
        VP_CHECK(&b.get_column(i) == &c, "%s: get_column(%zu)", what, i);
        VP_CHECK(b.get_column_name(i) == names[i], "%s: get_column_name(%zu)", what, i);
        VP_CHECK(b.contains_column(names[i]), "%s: contains_column of its column %zu", what, i);
        VP_CHECK(&b.get_column(names[i]) == &c, "%s: get_column of the name of column %zu", what, i);
        if (m) VP_SAME(sc::shown(c), m->want[i], "%s: column %zu", what, i);
        ++i;
    }
    for (auto& s : all_names()) if (!is_in(names, s))
    {
        VP_CHECK(!b.contains_column(s), "%s: contains an absent name", what);
        VP_CHECK(out_of_range([&] { return &b.get_column(s); }), "%s: lookup of an absent name", what);
    }
    VP_CHECK(b == b, "%s: not equal to itself", what);
}
static void equal(const sp::record_batch& x, const sp::record_batch& y, const Cols& mx, const Cols& my)
{
    bool e = mx.names == my.names;
    for (std::size_t i = 0; e && i < mx.names.size(); ++i) e = x.get_column(i) == y.get_column(i);
    VP_CHECK((x == y) == e && (y == x) == e && (x != y) == !e, "equality of batches");
}
// what columns are made of
struct Column { sp::array a; ar::Strs want; };
struct Store { std::list<sp::array> sources; ar::Tracker t; };
static Column column(Store& st, int form, const Mask& m, std::size_t k, int salt)
{
    if (form == 0) { auto x = zoo::make(k % zoo::kinds().size(), m, salt); return {std::move(x.a), x.want}; }
    const std::size_t n = m.size();
    if (form == 1 || form == 2)
    {
        Mask l(m); l.insert(l.begin(), {true, false}); l.push_back(true);
        auto x = zoo::make(k % zoo::kinds().size(), l, salt);
        if (form == 1 || x.a.data_type() == sp::data_type::NA) return {x.a.slice(2, 2 + n), sub(x.want, 2, 2 + n)};
        st.sources.push_back(std::move(x.a));
        return {st.sources.back().slice_view(2, 2 + n), sub(x.want, 2, 2 + n)};
    }
    zoo::FOpt o; o.offset = 1; o.garbage = true; o.salt = salt;
    auto f = zoo::fmake(k % zoo::fkinds().size(), m, o);
    return {sp::array(f.n.array(st.t), f.n.schema(st.t)), f.want};
}
struct Made { std::vector<std::string> names; std::vector<sp::array> cols; Cols m; };
static Made columns(Store& st, std::size_t n, const Mask& mask, std::size_t kind, int form, int rotate)
{
    Made r;
    for (std::size_t i = 0; i < n; ++i)
    {
        r.names.push_back(all_names()[(i + std::size_t(rotate)) % 4]);
        Mask x = mask; if (i % 2) x.flip();
        auto c = column(st, (form + int(i)) % 4, x, kind + i * 5, int(i));
        r.m.want.push_back(c.want); r.cols.push_back(std::move(c.a));
    }
    r.m.names = r.names;
    return r;
}
static const char* const forms[] = {"lvalues", "rvalues", "mixed", "views", "lists", "filtered views", "initializer list", "C strings"};
static sp::record_batch build(Made& x, int how)
{
    const auto names = x.names;
    auto intact = [&] { for (std::size_t i = 0; i < x.cols.size(); ++i) VP_SAME(sc::shown(x.cols[i]), x.m.want[i], "column given as an lvalue"); VP_CHECK(x.names == names, "names given as an lvalue"); };
    switch (how)
    {
        case 0: { sp::record_batch b(x.names, x.cols); intact(); return b; }
        case 1: return sp::record_batch(std::move(x.names), std::move(x.cols));
        case 2: { const auto& cn = x.names; sp::record_batch b(cn, std::vector<sp::array>(x.cols)); intact(); return b; }
        case 3: { sp::record_batch b(x.names | std::views::all, std::views::counted(x.cols.begin(), std::ptrdiff_t(x.cols.size()))); intact(); return b; }
        case 4:
        {
            std::list<std::string> n(names.begin(), names.end()); const std::list<sp::array> c(x.cols.begin(), x.cols.end());
            sp::record_batch b(std::move(n), c);
            std::size_t i = 0; for (auto& e : c) { VP_SAME(sc::shown(e), x.m.want[i], "column given as a constant"); ++i; }
            return b;
        }
        case 5:
        {
            auto yes = [](const auto&) { return true; };
            sp::record_batch b(x.names | std::views::filter(yes), x.cols | std::views::filter(yes)); intact(); return b;
        }
        case 6:
        {
            auto& c = x.cols;
            auto p = [&](std::size_t i) { return std::pair<std::string, sp::array>(x.names[i], c[i]); };
            switch (names.size())
            {
                case 0: return sp::record_batch(sp::record_batch::initializer_type{});
                case 1: { sp::record_batch b{p(0)}; intact(); return b; }
                case 2: { sp::record_batch b{p(0), p(1)}; intact(); return b; }
                case 3: { sp::record_batch b{p(0), p(1), p(2)}; intact(); return b; }
                default: { sp::record_batch b{p(0), p(1), p(2), p(3)}; intact(); return b; }
            }
        }
        default:
        {
            std::vector<const char*> n; for (auto& s : x.names) n.push_back(s.c_str());
            for (auto& s : x.m.names) s = s.c_str();
            sp::record_batch b(n, x.cols); return b;
        }
    }
}
// every way to build x layouts x null patterns, then copies
static void constructions()
{
    LeakScope l;
    Store st;
    const std::size_t n = choose(5);
    const int how = int(choose(8));
    const Mask m = n ? shape({9}, tier(2, 4)) : Mask{};
    const std::size_t kind = n ? choose(std::uint32_t(zoo::kinds().size())) : 0;
    const int form = n ? int(choose(4)) : 0;
    if (n > 2 && !thorough()) { if (form != int(kind % 4)) prune(); }
    note([&] { return fmt("%zu columns from %s, kind %zu, form %d, valid %s", n, forms[how], kind, form, show(m).c_str()); });
    Made x = columns(st, n, m, kind, form, int(kind));
    sp::record_batch b = build(x, how);
    matched(b, x.m, "built");
    sp::record_batch c(b); matched(c, x.m, "copy"); matched(b, x.m, "copied"); equal(b, c, x.m, x.m);
    for (std::size_t i = 0; i < n; ++i) VP_CHECK(c.get_column(i) == b.get_column(i) && &c.get_column(i) != &b.get_column(i), "column %zu of the copy", i);
    sp::record_batch d(std::move(b)); matched(d, x.m, "moved"); matched(b, std::nullopt, "moved from");
    b = c; matched(b, x.m, "assigned"); equal(b, d, x.m, x.m);
    c = std::move(b); matched(c, x.m, "move assigned"); matched(b, std::nullopt, "moved from");
    { sp::record_batch e(c.names(), c.columns()); matched(e, x.m, "rebuilt"); matched(c, x.m, "rebuilt from"); }
    std::vector<sp::array> again(d.columns().begin(), d.columns().end());
    for (std::size_t i = 0; i < n; ++i) VP_SAME(sc::shown(again[i]), x.m.want[i], "extracted column");
}
// histories of three batches
static void histories()
{
    LeakScope l;
    Store st;
    std::array<Slot, 3> s;
    auto check = [&](const char* what)
    {
        for (auto& x : s) if (x.b) matched(*x.b, x.m, what);
        for (auto& x : s) for (auto& y : s) if (x.b && y.b && x.m && y.m) equal(*x.b, *y.b, *x.m, *y.m);
    };
    // three batches: different numbers of columns, the second shares names (at other positions) with the first
    const int setup = int(choose(3));
    for (std::size_t i = 0; i < 3; ++i)
    {
        if (setup == 2 && i == 2) continue;
        Made x = columns(st, setup == 0 ? 2 : i == 0 ? 3 : i == 1 ? 1 : 0, Mask{true, i % 2 == 0}, i * 3 + std::size_t(setup) * 7, int(i), setup == 0 ? int(i) : 0);
        s[i].b.emplace(build(x, int(i) + setup)); s[i].m = x.m;
    }
    check("start");
    const std::uint32_t depth = tier(3, 4);
    for (std::uint32_t step = 0; step < depth; ++step)
    {
        const std::uint32_t op = choose(9);
        const std::size_t d = choose(3);
        std::size_t o = d;
        if (op <= 4) o = choose(3);
        auto &D = s[d], &O = s[o];
        switch (op)
        {
            case 0: if (!D.b || !O.b) prune(); note([&] { return fmt("#%zu = #%zu", d, o); }); *D.b = *O.b; D.m = O.m; break;
            case 1: if (!D.b || !O.b || d == o) prune(); note([&] { return fmt("#%zu = move(#%zu)", d, o); }); *D.b = std::move(*O.b); D.m = O.m; O.m.reset(); break;
            case 2: if (!O.b || d == o) prune(); note([&] { return fmt("#%zu(#%zu)", d, o); }); D.b.emplace(*O.b); D.m = O.m; break;
            case 3: if (!O.b || d == o) prune(); note([&] { return fmt("#%zu(move(#%zu))", d, o); }); D.b.emplace(std::move(*O.b)); D.m = O.m; O.m.reset(); break;
            case 4: if (!D.b || !O.b || d >= o) prune(); note([&] { return fmt("swap(#%zu, #%zu)", d, o); }); std::swap(*D.b, *O.b); std::swap(D.m, O.m); break;
            case 5: if (!D.b) prune(); note([&] { return fmt("#%zu destroyed", d); }); D.b.reset(); D.m.reset(); break;
            case 6: if (!D.b || !D.m) prune(); note([&] { return fmt("#%zu = batch(names, columns of #%zu)", d, d); }); D.b = sp::record_batch(D.b->names(), D.b->columns()); break;
            case 7:
            {
                if (!D.b || !D.m || D.m->names.empty()) prune();
                note([&] { return fmt("#%zu = its columns in reverse order", d); });
                Made x;
                for (std::size_t i = D.m->names.size(); i-- > 0;) { x.names.push_back(D.m->names[i]); x.cols.push_back(D.b->get_column(D.m->names[i])); x.m.want.push_back(D.m->want[i]); }
                x.m.names = x.names;
                *D.b = sp::record_batch(std::move(x.names), std::move(x.cols)); D.m = x.m;
                break;
            }
            default:
            {
                note([&] { return fmt("#%zu = one column", d); });
                Made x = columns(st, 1, Mask{true, false, true}, 4, 0, 1);
                if (D.b) *D.b = build(x, 6); else D.b.emplace(build(x, 3));
                D.m = x.m;
            }
        }
        check("after");
    }
}
// copies are independent of the batch and of the arrays they were made of
static void independence()
{
    LeakScope l;
    Store st;
    const std::size_t kind = choose(std::uint32_t(zoo::kinds().size()));
    const int form = int(choose(3)), victim = int(choose(3)), how = pick(std::vector<int>{0, 2, 3, 6});
    note([&] { return fmt("kind %zu, form %d, victim %d, %s", kind, form, victim, forms[how]); });
    Made x = columns(st, 3, Mask{true, false, true, true}, kind, form == 2 ? 3 : form, 0);
    std::optional<sp::record_batch> b(build(x, how)), c(*b);
    std::optional<sp::record_batch> e; e.emplace(std::vector<std::string>{"a"}, std::vector<sp::array>{x.cols[0]}); *e = *b;
    if (victim == 0) { x.cols.clear(); x.cols.shrink_to_fit(); st.sources.clear(); matched(*b, x.m, "sources gone"); matched(*c, x.m, "sources gone"); matched(*e, x.m, "sources gone"); }
    else if (victim == 1) { b.reset(); matched(*c, x.m, "source gone"); matched(*e, x.m, "source gone"); equal(*c, *e, x.m, x.m); }
    else { e.reset(); c.reset(); matched(*b, x.m, "copies gone"); }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds(); all_names();
        add("constructions", constructions);
        add("histories", histories);
        add("independence", independence);
    });
}
