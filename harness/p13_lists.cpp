// P13: list arrays show exactly the lists the Arrow format defines
#include "deep.hpp"
using namespace vp;
using namespace zu;

static const char* const CH[] = {"i32", "string", "list<i32>", "dict8<string>", "struct<i32,string>"};

// values of lists: size, elements, comparison and the flat array
template <class L> static void lists(const L& t, const ar::Strs& want, const ar::Strs& ch, const std::vector<std::pair<std::size_t, std::size_t>>& r)
{
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        auto x = t[i];
        VP_CHECK(x.has_value() == (want[i] != ar::null_()), "element %zu", i);
        if (!x.has_value()) continue;
        VP_CHECK(x.get().size() == r[i].second, "list %zu has %zu elements, expected %zu", i, x.get().size(), r[i].second);
        for (std::size_t k = 0; k < r[i].second; ++k) VP_CHECK(sc::canon(x.get()[k]) == ch[r[i].first + k], "list %zu element %zu", i, k);
        for (std::size_t j = 0; j < want.size(); ++j)
        {
            auto y = t[j];
            if (!y.has_value()) { VP_CHECK(!(x == y), "list equal to null"); continue; }
            VP_CHECK((x.get() == y.get()) == (want[i] == want[j]), "lists %zu and %zu: == is wrong", i, j);
            VP_CHECK((x == y) == (want[i] == want[j]), "elements %zu and %zu: == is wrong", i, j);
        }
    }
    const auto* f = t.raw_flat_array();
    VP_CHECK(sp::array_size(*f) == ch.size(), "flat array of %zu, expected %zu", sp::array_size(*f), ch.size());
    for (std::size_t k = 0; k < ch.size(); ++k) VP_CHECK(sc::canon(sp::array_element(*f, k)) == ch[k], "flat element %zu", k);
}
using Ranges = std::vector<std::pair<std::size_t, std::size_t>>;
static ar::Strs texts(const Mask& m, const Ranges& r, const ar::Strs& c)
{
    ar::Strs w;
    for (std::size_t i = 0; i < m.size(); ++i) w.push_back(m[i] ? list_text(c, r[i].first, r[i].second) : ar::null_());
    return w;
}
static Mask child_mask(std::size_t c) { bool f = flip(); Mask m(c, true); if (f) for (std::size_t i = 0; i < c; ++i) m[i] = i % 2; return m; }
static void look(const ar::FNode& n, const Mask& m, const Ranges& r, const ar::Strs& c, bool win)
{
    imported(n, texts(m, r, c), win);
    if (!win)
    {
        ar::Tracker t;
        { sp::array a(n.array(t), n.schema(t)); a.visit([&](const auto& x) { if constexpr (requires { x.raw_flat_array(); }) lists(x, texts(m, r, c), c, r); else VP_CHECK(false, "wrong layout"); }); t.unchanged(); }
        t.check(0, 0);
    }
}
static ar::FNode parent(std::string f, const Mask& m, std::size_t P, std::vector<ar::Bytes> more, ar::FNode c)
{
    bool absent = all(m) && flip();
    auto n = fnode(std::move(f), std::int64_t(m.size()), std::int64_t(P), {vbits(m, P, P != 0, absent)}, {std::move(c)});
    for (auto& b : more) n.buffers.push_back(b);
    n.null_count = nulls(m);
    return n;
}
// every nondecreasing sequence of offsets
template <class O> static void offsets(const char* f, std::size_t maxn, std::size_t maxc, std::size_t maxP, std::size_t kinds, bool win)
{
    LeakScope l;
    const char* k = CH[choose(std::uint32_t(kinds))];
    std::size_t c = choose(std::uint32_t(maxc + 1)), n = choose(std::uint32_t(maxn + 1)), P = choose(std::uint32_t(maxP + 1)), co = choose(2);
    std::vector<O> off; std::size_t prev = 0;
    for (std::size_t i = 0; i <= n + P; ++i) { prev += choose(std::uint32_t(c - prev + 1)); off.push_back(O(prev)); }
    Mask m = mask_of(n);
    auto ch = child(k, child_mask(c), co);
    Ranges r;
    for (std::size_t i = 0; i < n; ++i) r.push_back({std::size_t(off[P + i]), std::size_t(off[P + i + 1] - off[P + i])});
    note([&] { std::string s; for (auto x : off) s += std::to_string(x) + " "; return fmt("%s of %zu %s (offset %zu), offset %zu, offsets %s valid %s", f, c, k, co, P, s.c_str(), show(m).c_str()); });
    look(parent(f, m, P, {ar::raw(off)}, ch.n), m, r, ch.want, win);
}
// every (offset, size) of views: overlapping, out of order, empty
template <class O> static void views(const char* f, std::size_t maxn, std::size_t maxc, std::size_t maxP, std::size_t kinds, bool win)
{
    LeakScope l;
    const char* k = CH[choose(std::uint32_t(kinds))];
    std::size_t c = choose(std::uint32_t(maxc + 1)), n = choose(std::uint32_t(maxn + 1)), P = choose(std::uint32_t(maxP + 1)), co = choose(2);
    std::vector<O> off, sz; Ranges r;
    for (std::size_t i = 0; i < P; ++i) { off.push_back(O(c - c / 2)); sz.push_back(O(c / 2)); }
    for (std::size_t i = 0; i < n; ++i)
    {
        std::size_t b = choose(std::uint32_t(c + 1)), z = choose(std::uint32_t(c - b + 1));
        off.push_back(O(b)); sz.push_back(O(z)); r.push_back({b, z});
    }
    Mask m = mask_of(n);
    auto ch = child(k, child_mask(c), co);
    note([&] { std::string s; for (auto x : r) s += fmt("[%zu,+%zu) ", x.first, x.second); return fmt("%s of %zu %s (offset %zu), offset %zu, views %s valid %s", f, c, k, co, P, s.c_str(), show(m).c_str()); });
    look(parent(f, m, P, {ar::raw(off), ar::raw(sz)}, ch.n), m, r, ch.want, win);
}
static void fixed(bool win)
{
    LeakScope l;
    const char* k = CH[choose(win ? 2 : 5)];
    static const std::size_t ks[] = {0, 1, 2, 3, 10, 12, 100};
    std::size_t w = ks[choose(7)], n = choose(w > 3 ? 3 : tier(4, 5)), P = choose(3), co = choose(3), extra = choose(2);
    Mask m = mask_of(n);
    Mask cm((P + n) * w + extra, true);
    if (flip()) for (std::size_t i = 0; i < cm.size(); ++i) cm[i] = i % 3 != 1;
    auto ch = child(k, cm, co);
    Ranges r;
    for (std::size_t i = 0; i < n; ++i) r.push_back({(P + i) * w, w});
    note([&] { return fmt("fixed size %zu of %s (offset %zu, length %zu), offset %zu, valid %s", w, k, co, cm.size(), P, show(m).c_str()); });
    look(parent("+w:" + std::to_string(w), m, P, {}, ch.n), m, r, ch.want, win);
}
static const char* const BK[] = {"i32", "string", "list<i32>", "dict8<string>"};
template <class L> static void finish(L&& x, const Mask& m, const Ranges& r, const ar::Strs& c)
{
    const auto want = texts(m, r, c);
    lists(x, want, c, r);
    typed(x, want, "built list array");
    sp::array a(std::move(x));
    deep(a, want, true);
}
template <class L, class O> static void built_offsets(std::size_t maxn, std::size_t maxc)
{
    LeakScope l;
    ar::Tracker t;
    const char* k = BK[choose(tier(2, 4))];
    const int how = int(choose(4));
    std::size_t c = choose(std::uint32_t(maxc + 1)), n = choose(std::uint32_t(maxn + 1));
    std::vector<O> off; std::size_t prev = 0;
    for (std::size_t i = 0; i <= n; ++i) { prev += choose(std::uint32_t(c - prev + 1)); off.push_back(O(prev)); }
    Mask m = mask_of(n);
    Ranges r;
    for (std::size_t i = 0; i < n; ++i) r.push_back({std::size_t(off[i]), std::size_t(off[i + 1] - off[i])});
    Mask cm(c, true); for (std::size_t i = 1; i < c; i += 2) cm[i] = false;
    note([&] { std::string s; for (auto x : off) s += std::to_string(x) + " "; return fmt("list of %zu %s (way %d), offsets %s valid %s", c, k, how, s.c_str(), show(m).c_str()); });
    {
        auto fl = flat(k, k, cm, how, t);
        bool sizes = off[0] == 0 && flip(), defv = all(m) && flip();
        auto ob = [&]
        {
            if (!sizes) return sp::u8_buffer<O>(off);
            std::vector<std::size_t> sz; for (auto& x : r) sz.push_back(x.second);
            auto made = L::offset_from_sizes(sz);
            std::vector<O> got(made.begin(), made.end());
            VP_CHECK(got == off, "offset_from_sizes");
            return made;
        };
        if (defv) finish(L(std::move(fl.a), ob()), m, r, fl.want);
        else finish(L(std::move(fl.a), ob(), m), m, r, fl.want);
    }
    t.check(0, 0);
}
template <class L, class O> static void built_views(std::size_t maxn, std::size_t maxc)
{
    LeakScope l;
    ar::Tracker t;
    const char* k = BK[choose(tier(2, 4))];
    const int how = int(choose(4));
    std::size_t c = choose(std::uint32_t(maxc + 1)), n = choose(std::uint32_t(maxn + 1));
    std::vector<O> off, sz; Ranges r;
    for (std::size_t i = 0; i < n; ++i)
    {
        std::size_t b = choose(std::uint32_t(c + 1)), z = choose(std::uint32_t(c - b + 1));
        off.push_back(O(b)); sz.push_back(O(z)); r.push_back({b, z});
    }
    Mask m = mask_of(n), cm(c, true); for (std::size_t i = 1; i < c; i += 2) cm[i] = false;
    note([&] { std::string s; for (auto x : r) s += fmt("[%zu,+%zu) ", x.first, x.second); return fmt("list view of %zu %s (way %d), views %s valid %s", c, k, how, s.c_str(), show(m).c_str()); });
    {
        auto fl = flat(k, k, cm, how, t);
        if (all(m) && flip()) finish(L(std::move(fl.a), sp::u8_buffer<O>(off), sp::u8_buffer<O>(sz)), m, r, fl.want);
        else finish(L(std::move(fl.a), sp::u8_buffer<O>(off), sp::u8_buffer<O>(sz), m), m, r, fl.want);
    }
    t.check(0, 0);
}
static void built_fixed()
{
    LeakScope l;
    ar::Tracker t;
    const char* k = BK[choose(4)];
    const int how = int(choose(4));
    static const std::size_t ks[] = {1, 2, 3, 12};
    std::size_t w = ks[choose(4)], n = choose(4), rest = choose(2) ? w - 1 : 0;
    Mask m = mask_of(n), cm(n * w + rest, true); for (std::size_t i = 1; i < cm.size(); i += 2) cm[i] = false;
    Ranges r;
    for (std::size_t i = 0; i < n; ++i) r.push_back({i * w, w});
    note([&] { return fmt("fixed size %zu of %zu %s (way %d), valid %s", w, cm.size(), k, how, show(m).c_str()); });
    {
        auto fl = flat(k, k, cm, how, t);
        if (all(m) && flip()) finish(sp::fixed_sized_list_array(std::uint64_t(w), std::move(fl.a)), m, r, fl.want);
        else finish(sp::fixed_sized_list_array(std::uint64_t(w), std::move(fl.a), m), m, r, fl.want);
    }
    t.check(0, 0);
}
// offsets beyond the small ones: lists longer than 255 / 65535 elements
static void large()
{
    LeakScope l;
    static const std::size_t szs[] = {127, 128, 255, 256, 257, 65535, 65536, 70000};
    std::size_t a = szs[choose(8)], b = szs[choose(thorough() ? 8 : 5)]; int f = int(choose(2));
    Mask cm(a + b, true);
    auto ch = child("i32", cm, 0);
    Mask m(3, true); Ranges r{{0, a}, {a, 0}, {a, b}};
    note([&] { return fmt("lists of %zu, 0 and %zu elements", a, b); });
    ar::Tracker t;
    {
        sp::array flat_(ch.n.array(t), ch.n.schema(t));
        std::vector<std::size_t> sz{a, 0, b};
        const auto want = texts(m, r, ch.want);
        auto go = [&](auto x) { typed(x, want, "large lists"); sp::array y(std::move(x)); full(y, want, "large lists"); sp::array z(y); full(z, want, "copy"); };
        if (f) go(sp::list_array(std::move(flat_), sp::list_array::offset_from_sizes(sz)));
        else go(sp::big_list_array(std::move(flat_), sp::big_list_array::offset_from_sizes(sz)));
    }
    t.check(0, 0);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        using I = std::int32_t; using J = std::int64_t;
        add("list: all offsets", [] { offsets<I>("+l", 3, 3, tier(1, 2), 5, false); });
        add("large list: all offsets", [] { offsets<J>("+L", 3, 3, tier(1, 2), tier(2, 5), false); });
        add("list: slices and copies", [] { offsets<I>("+l", 2, 2, 2, tier(2, 5), true); });
        add("large list: slices and copies", [] { offsets<J>("+L", 2, 2, 1, 2, true); });
        add("list view: all views", [] { views<I>("+vl", tier(2, 3), 3, 1, tier(3, 5), false); });
        add("large list view: all views", [] { views<J>("+vL", tier(2, 3), 3, 1, tier(2, 5), false); });
        add("list view: slices and copies", [] { views<I>("+vl", 2, 2, 2, tier(1, 3), true); });
        add("large list view: slices and copies", [] { views<J>("+vL", 2, 2, 1, tier(1, 3), true); });
        add("fixed size", [] { fixed(false); });
        add("fixed size: slices and copies", [] { fixed(true); });
        add("built list", [] { built_offsets<sp::list_array, I>(tier(2, 3), 3); });
        add("built large list", [] { built_offsets<sp::big_list_array, J>(2, 2); });
        add("built list view", [] { built_views<sp::list_view_array, std::uint32_t>(2, tier(2, 3)); });
        add("built large list view", [] { built_views<sp::big_list_view_array, std::uint64_t>(2, 2); });
        add("built fixed size", built_fixed);
        add("large", large);
    });
}
