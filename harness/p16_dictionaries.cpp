// P16: dictionary-encoded arrays show exactly the referenced dictionary values
#include "deep.hpp"
using namespace vp;
using namespace zu;

static const char* const CH[] = {"i32", "string", "list<i32>", "struct<i32,string>", "f64", "dense<i32,string>", "ree32<i32>", "fixed2<i32>", "u8", "dict8<string>"};
template <class K> static const char* fmt_of()
{
    static const char f[] = {std::is_signed_v<K> ? "csil"[std::countr_zero(sizeof(K))] : "CSIL"[std::countr_zero(sizeof(K))], 0};
    return f;
}
// null elements have the type of the dictionary's values: the same alternative of the variant as its elements
static void null_type(const sp::array& a, const sp::array& dict, const ar::Strs& w)
{
    if (dict.size() == 0) return;
    const auto alt = dict[0].index();
    for (std::size_t i = 0; i < w.size(); ++i)
    {
        VP_CHECK(a[i].index() == alt, "element %zu is of another type than the values of the dictionary", i);
        VP_CHECK(a[i].has_value() == (w[i] != ar::null_()), "element %zu", i);
        for (std::size_t j = 0; j < w.size(); ++j) VP_CHECK((a[i] == a[j]) == (w[i] == w[j]), "elements %zu and %zu: == is wrong", i, j);
    }
}
static bool single_type(const char* k) { return std::string_view(k).substr(0, 5) != "dense"; }
template <class K> static void foreign(std::size_t maxn, std::size_t maxd, std::size_t kinds, bool win)
{
    LeakScope l;
    const char* k = CH[choose(std::uint32_t(kinds))];
    std::size_t n = choose(std::uint32_t(maxn + 1)), d = choose(std::uint32_t(maxd + 1)), P = choose(win ? 3 : 2), co = choose(2);
    Mask m = mask_of(n);
    if (d == 0 && nulls(m) != std::int64_t(n)) prune();
    Mask dm = mask_of(d);
    const bool garbage = flip(), absent = all(m) && flip();
    auto v = child(k, dm, co, 0, garbage);
    std::vector<K> keys(P, garbage ? std::numeric_limits<K>::max() : K(0)); ar::Strs w;
    for (std::size_t i = 0; i < n; ++i)
    {
        if (!m[i]) { keys.push_back(garbage ? (i % 2 ? K(-1) : std::numeric_limits<K>::max()) : K(0)); w.push_back(ar::null_()); continue; }
        std::size_t x = choose(std::uint32_t(d));
        keys.push_back(K(x)); w.push_back(v.want[x]);
    }
    auto node = fnode(fmt_of<K>(), std::int64_t(n), std::int64_t(P), {vbits(m, P, garbage, absent), ar::raw(keys)});
    node.null_count = nulls(m);
    node.dictionary = {v.n};
    note([&] { return fmt("keys of format %s over %zu %s (valid %s, offset %zu), valid %s offset %zu%s: %s", fmt_of<K>(), d, k, show(dm).c_str(), co, show(m).c_str(), P, garbage ? " garbage" : "", ar::join(w).c_str()); });
    imported(node, w, win);
    if (!win)
    {
        ar::Tracker t;
        {
            sp::array a(node.array(t), node.schema(t)), dict(v.n.array(t), v.n.schema(t));
            if (single_type(k)) null_type(a, dict, w);
            t.unchanged();
        }
        t.check(0, 0);
    }
}
static const char* const BK[] = {"i32", "string", "list<i32>", "struct<i32,string>", "f64"};
template <class K> static void built(std::size_t maxn, std::size_t kinds)
{
    LeakScope l;
    ar::Tracker t;
    const char* k = BK[choose(std::uint32_t(kinds))];
    std::size_t n = choose(std::uint32_t(maxn + 1)), d = 1 + choose(2); int how = int(choose(4));
    Mask m = mask_of(n), dm = mask_of(d);
    {
        auto v = flat(k, k, dm, how, t);
        sp::array dict(v.a);
        std::vector<K> keys; ar::Strs w;
        for (std::size_t i = 0; i < n; ++i) { std::size_t x = choose(std::uint32_t(d)); keys.push_back(K(x)); w.push_back(m[i] ? v.want[x] : ar::null_()); }
        note([&] { return fmt("%zu-byte keys over %s %s (way %d), valid %s: %s", sizeof(K), k, show(dm).c_str(), how, show(m).c_str(), ar::join(w).c_str()); });
        using D = sp::dictionary_encoded_array<K>;
        D x = all(m) && flip() ? D(sp::u8_buffer<K>(keys), std::move(v.a)) : D(sp::u8_buffer<K>(keys), std::move(v.a), m);
        typed(x, w, "built dictionary array");
        sp::array a(std::move(x));
        null_type(a, dict, w);
        deep(a, w);
    }
    t.check(0, 0);
}
// several arrays alive: every history of assignments between three arrays with different dictionaries
static void histories()
{
    LeakScope l;
    using K = std::uint8_t; using D = sp::dictionary_encoded_array<K>;
    struct Slot { std::optional<D> a; ar::Strs w; std::size_t alt = 0; bool moved = false; };
    static const char* const ks[] = {"string", "i32", "list<i32>"};
    std::vector<Slot> s(3);
    auto make = [&](std::size_t i, const char* k, int salt)
    {
        auto v = zoo::make(kind(k), {true, false, true}, salt);
        s[i].alt = v.a[0].index();
        std::vector<K> keys{2, 0, 1, 2}; Mask m{true, false, true, true}; s[i].w.clear();
        for (std::size_t j = 0; j < 4; ++j) s[i].w.push_back(m[j] ? v.want[keys[j]] : ar::null_());
        s[i].a.emplace(sp::u8_buffer<K>(keys), std::move(v.a), m); s[i].moved = false;
    };
    for (std::size_t i = 0; i < 3; ++i) make(i, ks[i], int(i));
    auto check = [&]
    {
        for (auto& x : s)
        {
            if (!x.a || x.moved) continue;
            VP_SAME(sc::shown(*x.a), x.w, "elements");
            VP_SAME(sc::iterated(*x.a), x.w, "iterated");
            for (std::size_t i = 0; i < x.w.size(); ++i) VP_CHECK((*x.a)[i].index() == x.alt, "null of the wrong type");
        }
    };
    check();
    const std::size_t depth = choose(tier(3, 4)) + 1;
    for (std::size_t step = 0; step < depth; ++step)
    {
        const int op = int(choose(5)); std::size_t i = choose(3), j = choose(3);
        if ((i == j && op != 0) || !s[j].a || s[j].moved) prune();
        auto take = [&] { s[i].w = s[j].w; s[i].alt = s[j].alt; s[i].moved = false; };
        note([&] { return fmt("operation %d: %zu <- %zu", op, i, j); });
        switch (op)
        {
            case 0: if (!s[i].a) prune(); *s[i].a = *s[j].a; take(); break;
            case 1: if (!s[i].a) prune(); *s[i].a = std::move(*s[j].a); take(); s[j].moved = true; break;
            case 2: s[i].a.emplace(*s[j].a); take(); break;
            case 3: s[i].a.emplace(std::move(*s[j].a)); take(); s[j].moved = true; break;
            case 4: s[i].a.reset(); break;
        }
        check();
    }
    for (auto& x : s) if (x.a && !x.moved) { sp::array a(std::move(*x.a)); full(a, x.w, "at the end"); }
}
// keys at the limits of their types
template <class K> static void large()
{
    LeakScope l;
    const std::size_t top = sizeof(K) == 1 ? std::size_t(std::numeric_limits<K>::max()) : std::is_signed_v<K> ? 32768 : 65536;
    const std::size_t d = std::min<std::size_t>(top + 1, sizeof(K) == 2 ? std::size_t(std::numeric_limits<K>::max()) + 1 : 70000);
    auto v = child(flip() ? "i32" : "string", Mask(d, true), 0);
    std::vector<std::size_t> at{0, 1, 126, 127, 128, 129, 254, 255, 256, 32766, 32767, 32768, 65534, 65535, d - 1};
    std::vector<K> keys; ar::Strs w;
    for (auto x : at) if (x < d) { keys.push_back(K(x)); w.push_back(v.want[x]); }
    auto node = fnode(fmt_of<K>(), std::int64_t(w.size()), 0, {std::nullopt, ar::raw(keys)});
    node.dictionary = {v.n};
    ar::Tracker t;
    {
        sp::array a(node.array(t), node.schema(t));
        shows(a, w, "large keys"); typed(a, w, "large keys");
        if (flip()) { sp::array c(a); full(c, w, "copy"); }
    }
    t.check(0, 0);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("imported u8", [] { foreign<std::uint8_t>(2, 2, 10, false); });
        add("imported i8", [] { foreign<std::int8_t>(tier(2, 3), 3, tier(2, 3), false); });
        add("imported i16", [] { foreign<std::int16_t>(2, 2, 2, false); });
        add("imported u16", [] { foreign<std::uint16_t>(2, 2, 2, false); });
        add("imported i32", [] { foreign<std::int32_t>(tier(2, 3), 3, tier(3, 10), false); });
        add("imported u32", [] { foreign<std::uint32_t>(2, 2, 2, false); });
        add("imported i64", [] { foreign<std::int64_t>(2, 2, 2, false); });
        add("imported u64", [] { foreign<std::uint64_t>(2, 2, 2, false); });
        add("imported: slices and copies", [] { foreign<std::int32_t>(2, tier(1, 2), tier(4, 10), true); });
        add("built u8", [] { built<std::uint8_t>(tier(2, 3), 5); });
        add("built i8", [] { built<std::int8_t>(2, 2); });
        add("built i16", [] { built<std::int16_t>(2, tier(1, 2)); });
        add("built u16", [] { built<std::uint16_t>(2, tier(1, 2)); });
        add("built i32", [] { built<std::int32_t>(2, 2); });
        add("built u32", [] { built<std::uint32_t>(2, tier(1, 2)); });
        add("built i64", [] { built<std::int64_t>(2, tier(1, 2)); });
        add("built u64", [] { built<std::uint64_t>(2, tier(1, 2)); });
        add("several arrays alive", histories);
        add("large i8", large<std::int8_t>); add("large u8", large<std::uint8_t>); add("large i16", large<std::int16_t>); add("large u16", large<std::uint16_t>);
        add("large i32", large<std::int32_t>); add("large u64", large<std::uint64_t>);
    });
}
