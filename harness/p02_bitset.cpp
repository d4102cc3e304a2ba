// P02: dynamic_bitset (owning and non-owning) is observationally a std::vector<bool> with an exact null count.
#include "common/vp.hpp"
#include <sparrow/buffer/dynamic_bitset.hpp>
#include <vector>
using namespace vp;
using V = std::vector<bool>;

template <class BS>
static void agree(BS& b, const V& m, const char* what)
{
    const BS& c = b;
    VP_CHECK(b.size() == m.size(), "%s: size %zu expected %zu", what, std::size_t(b.size()), m.size());
    VP_CHECK(b.empty() == m.empty());
    std::size_t nulls = 0; for (bool x : m) nulls += !x;
    VP_CHECK(b.null_count() == nulls, "%s: null_count %zu expected %zu", what, std::size_t(b.null_count()), nulls);
    const bool storage = c.data() != nullptr && c.block_count() > 0;
    auto cit = c.cbegin(); auto cit2 = c.begin();
    for (std::size_t i = 0; i < m.size(); ++i, ++cit, ++cit2)
    {
        VP_CHECK(c.test(i) == m[i], "%s: bit %zu", what, i);
        VP_CHECK(c[i] == m[i]); VP_CHECK(c.at(i) == m[i]); VP_CHECK(bool(*cit) == m[i], "%s: iterated bit %zu", what, i); VP_CHECK(bool(*cit2) == m[i]);
        if (storage) { VP_CHECK(bool(b[i]) == m[i]); VP_CHECK(bool(b.at(i)) == m[i]); VP_CHECK((~b[i]) == !m[i]); VP_CHECK(b[i] == m[i]); VP_CHECK(b[i] == b[i]);
                       VP_CHECK(bool((c.data()[i / (8 * sizeof(*c.data()))] >> (i % (8 * sizeof(*c.data())))) & 1) == m[i], "%s: stored bit %zu", what, i); }
    }
    VP_CHECK(cit == c.cend(), "%s: iteration does not end at end()", what); VP_CHECK(cit2 == c.end());
    VP_CHECK(std::size_t(c.cend() - c.cbegin()) == m.size());
    if (storage)
    {
        auto it = b.begin(); for (std::size_t i = 0; i < m.size(); ++i, ++it) VP_CHECK(bool(*it) == m[i]);
        VP_CHECK(it == b.end());
        auto rit = b.end(); for (std::size_t i = m.size(); i-- > 0;) { --rit; VP_CHECK(bool(*rit) == m[i]); }
        VP_CHECK(rit == b.begin());
        VP_CHECK(b.block_count() >= (m.size() + 8 * sizeof(*c.data()) - 1) / (8 * sizeof(*c.data())));
    }
    if (!m.empty()) { VP_CHECK(c.front() == m.front()); VP_CHECK(c.back() == m.back()); if (storage) { VP_CHECK(bool(b.front()) == m.front()); VP_CHECK(bool(b.back()) == m.back()); } }
}
static std::vector<std::size_t> positions(std::size_t n, bool incl_end, std::size_t bpb)
{
    std::vector<std::size_t> r;
    if (n <= 4) for (std::size_t i = 0; i < n + incl_end; ++i) r.push_back(i);
    else
    {
        for (std::size_t i : {std::size_t(0), bpb - 1, bpb, n / 2, n - 1}) if (i < n && (r.empty() || i > r.back())) r.push_back(i);
        if (incl_end) r.push_back(n);
    }
    return r;
}
static V pattern(std::size_t n)
{
    if (n <= 3) { V v(n); for (std::size_t i = 0; i < n; ++i) v[i] = flip(); return v; }
    V v(n);
    switch (choose(5)) {
    case 0: break;
    case 1: v.assign(n, true); break;
    case 2: for (std::size_t i = 0; i < n; ++i) v[i] = (i * i + i / 3) % 3 == 0; break;
    case 3: v.assign(n, true); v[n - 1] = false; break;
    case 4: v.assign(n, true); v[0] = false; break;
    }
    return v;
}
template <class T> struct Own
{
    using BS = sparrow::dynamic_bitset<T>;
    BS b;
    explicit Own(const V& v, std::uint32_t how)
        : b(make(v, how)) {}
    static BS make(const V& v, std::uint32_t how)
    {
        std::size_t n = v.size();
        constexpr std::size_t bpb = 8 * sizeof(T);
        switch (how) {
        case 0: { BS r; for (bool x : v) r.push_back(x); return r; }
        case 1: { BS r(n); for (std::size_t i = 0; i < n; ++i) if (v[i]) r.set(i, true); return r; }
        case 2: { BS r(n, true); for (std::size_t i = 0; i < n; ++i) if (!v[i]) r.set(i, false); return r; }
        case 3: case 4: {
            std::size_t blocks = (n + bpb - 1) / bpb;
            T* p = std::allocator<T>().allocate(blocks);
            for (std::size_t i = 0; i < blocks * bpb; ++i) { T m = T(T(1) << (i % bpb)); if (i % bpb == 0) p[i / bpb] = 0; if (i < n ? bool(v[i]) : true) p[i / bpb] |= m; }  // garbage (ones) after the last bit
            if (how == 3) return BS(p, n);
            std::size_t nulls = 0; for (bool x : v) nulls += !x;
            return BS(p, n, nulls); }
        default: { bool a[2000]; for (std::size_t i = 0; i < n; ++i) a[i] = v[i]; std::vector<char> c(n); for (std::size_t i = 0; i < n; ++i) c[i] = char(bool(v[i])); return BS(c); }
        }
    }
    static constexpr std::uint32_t ways = 6;
};
template <class T> struct Borrow
{
    using BS = sparrow::non_owning_dynamic_bitset<T>;
    sparrow::buffer<T> buf;
    BS b;
    explicit Borrow(const V& v, std::uint32_t how) : buf(make(v, how)), b(&buf, v.size()) {}
    static sparrow::buffer<T> make(const V& v, std::uint32_t how)
    {
        constexpr std::size_t bpb = 8 * sizeof(T);
        std::size_t n = v.size(), blocks = (n + bpb - 1) / bpb + (how == 1 ? 2 : 0);     // how 1: buffer with padding full of garbage
        sparrow::buffer<T> r(blocks, T(0));
        for (std::size_t i = 0; i < blocks * bpb; ++i) if (i < n ? bool(v[i]) : how != 2) r[i / bpb] = T(r[i / bpb] | T(T(1) << (i % bpb)));
        return r;
    }
    static constexpr std::uint32_t ways = 3;
};
template <class BS>
static void step(BS& b, V& m)
{
    constexpr std::size_t bpb = 8 * sizeof(*b.data());
    auto P = [&](std::size_t i) { return b.cbegin() + std::ptrdiff_t(i); };
    auto M = [&](std::size_t i) { return m.begin() + std::ptrdiff_t(i); };
    auto ret = [&](auto it, std::size_t i, const char* what) {
        VP_CHECK(std::size_t(it - b.begin()) == i, "%s returned position %td expected %zu", what, it - b.begin(), i);
        if (i < m.size()) VP_CHECK(bool(*it) == m[i]); else VP_CHECK(it == b.end());
    };
    switch (choose(17))
    {
    case 0: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false, bpb)); bool v = flip(); note([&]{ return fmt("set(%zu,%d)", i, v); }); b.set(i, v); m[i] = v; break; }
    case 1: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false, bpb)); bool v = flip(); switch (choose(4)) {
              case 0: note([&]{ return fmt("[%zu]=%d", i, v); }); b[i] = v; m[i] = v; break;
              case 1: note([&]{ return fmt("[%zu]&=%d", i, v); }); b[i] &= v; m[i] = m[i] && v; break;
              case 2: note([&]{ return fmt("[%zu]|=%d", i, v); }); b[i] |= v; m[i] = m[i] || v; break;
              case 3: note([&]{ return fmt("[%zu]^=%d", i, v); }); b[i] ^= v; m[i] = m[i] != v; break; } break; }
    case 2: { if (m.empty()) prune(); auto ps = positions(m.size(), false, bpb); auto i = pick(ps), j = pick(ps); note([&]{ return fmt("*(begin+%zu)=[%zu]", i, j); }); *(b.begin() + std::ptrdiff_t(i)) = b[j]; bool v = m[j]; m[i] = v; break; }
    case 3: { bool v = flip(); note([&]{ return fmt("push_back(%d)", v); }); b.push_back(v); m.push_back(v); break; }
    case 4: { if (m.empty()) prune(); note([&]{ return std::string("pop_back"); }); b.pop_back(); m.pop_back(); break; }
    case 5: { auto i = pick(positions(m.size(), true, bpb)); bool v = flip(); note([&]{ return fmt("insert(%zu,%d)", i, v); }); auto it = b.insert(P(i), v); m.insert(M(i), v); ret(it, i, "insert"); break; }
    case 6: { auto i = pick(positions(m.size(), true, bpb)); bool v = flip(); note([&]{ return fmt("emplace(%zu,%d)", i, v); }); auto it = b.emplace(P(i), v); m.insert(M(i), v); ret(it, i, "emplace"); break; }
    case 7: { auto i = pick(positions(m.size(), true, bpb)); bool v = flip(); std::size_t c = pick(std::vector<std::size_t>{0, 1, 2, bpb - 1, bpb, bpb + 1}); note([&]{ return fmt("insert(%zu,count %zu,%d)", i, c, v); });
              auto it = b.insert(P(i), c, v); m.insert(M(i), c, v); ret(it, i, "insert count"); break; }
    case 8: { auto i = pick(positions(m.size(), true, bpb)); std::size_t c = pick(std::vector<std::size_t>{0, 1, 3, bpb + 1}); V s(c); for (std::size_t k = 0; k < c; ++k) s[k] = k < 2 ? flip() : (k % 3 == 0); note([&]{ return fmt("insert(%zu,range of %zu)", i, c); });
              auto it = b.insert(P(i), s.begin(), s.end()); m.insert(M(i), s.begin(), s.end()); ret(it, i, "insert range"); break; }
    case 9: { auto i = pick(positions(m.size(), true, bpb)); note([&]{ return fmt("insert(%zu,{0,1,1})", i); }); auto it = b.insert(P(i), {false, true, true}); V s{false, true, true}; m.insert(M(i), s.begin(), s.end()); ret(it, i, "insert ilist"); break; }
    case 10: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false, bpb)); note([&]{ return fmt("erase(%zu)", i); }); auto it = b.erase(P(i)); m.erase(M(i)); ret(it, i, "erase"); break; }
    case 11: { auto ps = positions(m.size(), true, bpb); auto i = pick(ps), j = pick(ps); if (j < i) prune(); note([&]{ return fmt("erase(%zu,%zu)", i, j); }); auto it = b.erase(P(i), P(j)); m.erase(M(i), M(j)); ret(it, i, "erase range"); break; }
    case 12: { std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, bpb - 1, bpb, bpb + 1, 2 * bpb, 2 * bpb + 3}); note([&]{ return fmt("resize(%zu)", n); }); b.resize(n); m.resize(n, false); break; }
    case 13: { std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, bpb - 1, bpb, bpb + 1, 2 * bpb, 2 * bpb + 3}); bool v = flip(); note([&]{ return fmt("resize(%zu,%d)", n, v); }); b.resize(n, v); m.resize(n, v); break; }
    case 14: { note([&]{ return std::string("clear"); }); b.clear(); m.clear(); break; }
    case 15: { note([&]{ return std::string("copy"); }); BS c(b); agree(c, m, "copy"); BS d(std::move(c)); agree(d, m, "moved"); break; }
    case 16: { if (m.empty()) prune(); note([&]{ return std::string("flip all through iterators"); }); for (auto it = b.begin(); it != b.end(); ++it) *it ^= true; m.flip(); break; }
    }
    agree(b, m, "after the operation");
}
template <class S>
static void histories(std::uint32_t depth, std::vector<std::size_t> sizes)
{
    LeakScope l;
    {
        V m = pattern(pick(sizes)); auto how = choose(S::ways);
        note([&]{ std::string s = fmt("constructor %u of bits ", how); for (bool x : m) s += x ? '1' : '0'; return s; });
        S s(m, how); agree(s.b, m, "construction");
        for (std::uint32_t left = depth; left; --left)
        {
            Hash h; h(m.size())(s.b.block_count())(s.b.data() == nullptr); for (bool x : m) h(std::uint8_t(x));
            if (s.b.data()) h.bytes(s.b.data(), s.b.block_count() * sizeof(*s.b.data()));
            fresh(h.h, left);
            step(s.b, m);
        }
    }
}
// bitset without storage: all true; then mutated
template <class T>
static void storageless(std::uint32_t depth)
{
    LeakScope l;
    {
        std::size_t n = pick(std::vector<std::size_t>{0, 1, 7, 8, 9, 16, 65}); V m(n, true);
        note([&]{ return fmt("bitset without storage of size %zu", n); });
        auto run = [&](auto& b) { agree(b, m, "no storage"); for (std::uint32_t k = 0; k < depth; ++k) {
            if (b.data() == nullptr || b.block_count() == 0) switch (choose(8)) {
                case 0: b.push_back(false); m.push_back(false); break;
                case 1: b.push_back(true); m.push_back(true); break;
                case 2: { std::size_t i = pick(positions(m.size(), true, 8)); b.insert(b.cbegin() + std::ptrdiff_t(i), false); m.insert(m.begin() + std::ptrdiff_t(i), false); break; }
                case 3: { if (m.empty()) prune(); std::size_t i = pick(positions(m.size(), false, 8)); b.erase(b.cbegin() + std::ptrdiff_t(i)); m.erase(m.begin() + std::ptrdiff_t(i)); break; }
                case 4: { b.resize(m.size() + 9, flip()); V mm; for (std::size_t i = 0; i < b.size(); ++i) mm.push_back(i < m.size() ? true : b.test(b.size() - 1)); m = mm; break; }
                case 5: { if (m.empty()) prune(); b.pop_back(); m.pop_back(); break; }
                case 6: { auto c = b; agree(c, m, "copy"); b = c; break; }
                case 7: b.clear(); m.clear(); break;
            }
            else step(b, m);
            agree(b, m, "after the operation");
        } };
        if (flip()) { sparrow::dynamic_bitset<T> b(static_cast<T*>(nullptr), n); run(b); }
        else { sparrow::buffer<T> buf; sparrow::non_owning_dynamic_bitset<T> b(&buf, n); run(b); }
    }
}
// every bit pattern of small size, from every constructor
template <class T>
static void all_patterns(std::size_t maxn)
{
    LeakScope l;
    { auto thr = [](auto& b) { const auto& c = b; VP_THROWS(std::out_of_range, (void)c.at(c.size())); VP_THROWS(std::out_of_range, (void)b.at(c.size() + 1)); };
      std::size_t n = choose(std::uint32_t(maxn + 1)); V m(n); for (std::size_t i = 0; i < n; ++i) m[i] = flip(); auto how = choose(Own<T>::ways + Borrow<T>::ways);
      if (how < Own<T>::ways) { Own<T> s(m, how); agree(s.b, m, "construction"); thr(s.b); } else { Borrow<T> s(m, how - Own<T>::ways); agree(s.b, m, "construction"); thr(s.b); } }
}
template <class T>
static void swaps()
{
    LeakScope l;
    { V a = pattern(pick(std::vector<std::size_t>{0, 2, 9})), c = pattern(pick(std::vector<std::size_t>{0, 3, 17}));
      Own<T> x(a, choose(3)), y(c, choose(3));
      switch (choose(3)) {
      case 0: x.b.swap(y.b); agree(x.b, c, "swapped"); agree(y.b, a, "swapped"); break;
      case 1: x.b = y.b; agree(x.b, c, "assigned"); agree(y.b, c, "assigned-from"); x.b.push_back(false); agree(y.b, c, "independence"); break;
      case 2: x.b = std::move(y.b); agree(x.b, c, "move assigned"); break; } }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        const std::vector<std::size_t> s8{0, 1, 2, 3, 7, 8, 9, 16, 17};
        add("u8 histories", [=] { histories<Own<std::uint8_t>>(tier(2, 3), s8); }, {.stateful = true});
        add("u8 borrowed histories", [=] { histories<Borrow<std::uint8_t>>(tier(2, 3), s8); }, {.stateful = true});
        add("u64 histories", [] { histories<Own<std::uint64_t>>(tier(1, 2), {0, 1, 2, 63, 64, 65, 128, 1000}); }, {.stateful = true});
        add("u16 histories", [] { histories<Own<std::uint16_t>>(tier(1, 2), {0, 1, 15, 16, 17, 32}); }, {.stateful = true});
        add("u8 deep histories of small sizes", [] { histories<Own<std::uint8_t>>(tier(2, 4), {0, 1, 2, 3}); }, {.stateful = true});
        add("u8 big", [] { histories<Own<std::uint8_t>>(1, {63, 64, 65, 127, 128, 129, 1000, 1024}); }, {.stateful = true});
        add("u32 histories", [] { histories<Own<std::uint32_t>>(tier(1, 2), {0, 1, 31, 32, 33, 64}); }, {.stateful = true});
        add("storageless", [] { storageless<std::uint8_t>(2); });
        add("storageless u64", [] { storageless<std::uint64_t>(2); });
        add("all patterns", [] { all_patterns<std::uint8_t>(tier(11, 18)); });
        add("swaps", swaps<std::uint8_t>);
    });
}
