// P03: bitset views are exact windows on borrowed memory: they read exactly the given bits, never write on reading, and write single bits.
#include "common/vp.hpp"
#include <sparrow/buffer/dynamic_bitset.hpp>
#include <cstring>
#include <sys/mman.h>
#include <vector>
using namespace vp;
using V = std::vector<bool>;
template <class T, class U = std::remove_const_t<T>>
static void check_reads(const sparrow::dynamic_bitset_view<T>& c, const V& m)
{
    std::size_t nulls = 0; for (bool x : m) nulls += !x;
    VP_CHECK(c.size() == m.size()); VP_CHECK(c.empty() == m.empty());
    VP_CHECK(c.null_count() == nulls, "null_count %zu expected %zu", std::size_t(c.null_count()), nulls);
    auto it = c.begin();
    for (std::size_t i = 0; i < m.size(); ++i, ++it) { VP_CHECK(c.test(i) == m[i], "bit %zu", i); VP_CHECK(c[i] == m[i]); VP_CHECK(c.at(i) == m[i]); VP_CHECK(bool(*it) == m[i]); VP_CHECK(bool(c.begin()[std::ptrdiff_t(i)]) == m[i]); }
    VP_CHECK(it == c.end()); VP_CHECK(c.cend() - c.cbegin() == std::ptrdiff_t(m.size()));
    for (std::size_t i = m.size(); i-- > 0;) { --it; VP_CHECK(bool(*it) == m[i]); }
    if (!m.empty()) { VP_CHECK(c.front() == m.front()); VP_CHECK(c.back() == m.back()); }
    VP_THROWS(std::out_of_range, (void)c.at(m.size()));
}
template <class U> struct Exact            // exactly sized heap block: reading or writing past it is detected
{
    U* p; std::size_t n; std::vector<U> copy;
    Exact(const V& bits, std::uint32_t garbage, std::size_t extra_blocks = 0)
    {
        constexpr std::size_t bpb = 8 * sizeof(U);
        n = (bits.size() + bpb - 1) / bpb + extra_blocks;
        p = new U[n ? n : 1]{};
        for (std::size_t i = 0; i < n * bpb; ++i)
            if (i < bits.size() ? bool(bits[i]) : (garbage == 1 || (garbage == 2 && i % 2))) p[i / bpb] = U(p[i / bpb] | U(U(1) << (i % bpb)));
        copy.assign(p, p + n);
    }
    ~Exact() { delete[] p; }
    void unchanged(const char* w) { VP_CHECK(std::memcmp(p, copy.data(), n * sizeof(U)) == 0, "%s changed the viewed memory", w); }
};
static V bits_of(std::size_t n, std::size_t exhaustive)
{
    V m(n);
    if (n <= exhaustive) { for (std::size_t i = 0; i < n; ++i) m[i] = flip(); return m; }
    switch (choose(6)) { case 0: break; case 1: m.assign(n, true); break; case 2: for (std::size_t i = 0; i < n; ++i) m[i] = i % 3 == 1; break; case 3: m.assign(n, true); m[n - 1] = false; break; case 4: m[n - 1] = true; break; case 5: m.assign(n, true); m[0] = false; break; }
    return m;
}
template <class U>
static void reads(std::vector<std::size_t> sizes, std::size_t ex)
{
    LeakScope l;
    { V m = bits_of(pick(sizes), ex); auto g = choose(3); std::size_t nulls = 0; for (bool x : m) nulls += !x;
      note([&]{ std::string s; for (bool x : m) s += x ? '1' : '0'; return fmt("view of bits %s garbage %u", s.c_str(), g); });
      Exact<U> e(m, g);
      auto kind = choose(6);
      if (kind == 0) { sparrow::dynamic_bitset_view<const U> v(e.p, m.size()); check_reads(v, m); auto c = v; check_reads(c, m); }
      if (kind == 1) { sparrow::dynamic_bitset_view<const U> v(e.p, m.size(), nulls); check_reads(v, m); }
      if (kind == 2) { sparrow::dynamic_bitset_view<U> v(e.p, m.size()); check_reads(v, m); auto c = v; check_reads(c, m); for (std::size_t i = 0; i < m.size(); ++i) { VP_CHECK(bool(v[i]) == m[i]); VP_CHECK(bool(*(v.begin() + std::ptrdiff_t(i))) == m[i]); } }
      if (kind == 3) { sparrow::dynamic_bitset_view<U> v(e.p, m.size(), nulls); check_reads(v, m); }
      if (kind == 4) { sparrow::dynamic_bitset_view<U> v(e.p, m.size()); sparrow::dynamic_bitset_view<U> o(e.p, 0); o = v; check_reads(o, m); o.swap(v); check_reads(v, m); }
      if (kind == 5) { sparrow::dynamic_bitset_view<const U> v(e.p, m.size()); sparrow::dynamic_bitset<U> own(v); VP_CHECK(own.size() == m.size()); for (std::size_t i = 0; i < m.size(); ++i) VP_CHECK(own.test(i) == m[i]); VP_CHECK(own.null_count() == nulls); }
      e.unchanged("reading"); }
}
template <class U>
static void writes(std::vector<std::size_t> sizes, std::size_t ex, std::uint32_t depth)
{
    LeakScope l;
    { V m = bits_of(pick(sizes), ex); if (m.empty()) prune(); auto g = choose(3); Exact<U> e(m, g, 1);
      sparrow::dynamic_bitset_view<U> v(e.p, m.size());
      for (std::uint32_t k = 0; k < depth; ++k)
      {
        std::size_t i = m.size() <= 9 ? choose(std::uint32_t(m.size())) : pick(std::vector<std::size_t>{0, 1, 7, 8, m.size() / 2, m.size() - 2, m.size() - 1}); bool x = flip();
        auto how = choose(6);
        note([&]{ return fmt("write %zu <- %d (form %u)", i, x, how); });
        bool nv = x;
        switch (how) { case 0: v.set(i, x); break; case 1: v[i] = x; break; case 2: v.at(i) = x; break; case 3: *(v.begin() + std::ptrdiff_t(i)) = x; break;
                       case 4: v[i] ^= x; nv = m[i] != x; break; case 5: if (x) { v[i] |= true; } else { v[i] &= false; } break; }
        m[i] = nv;
        constexpr std::size_t bpb = 8 * sizeof(U);
        U mask = U(U(1) << (i % bpb)); if (nv) e.copy[i / bpb] = U(e.copy[i / bpb] | mask); else e.copy[i / bpb] = U(e.copy[i / bpb] & U(~mask));
        e.unchanged("writing one bit"); check_reads(v, m);
      }
      sparrow::dynamic_bitset_view<const U> again(e.p, m.size()); check_reads(again, m); }
}
static void readonly_memory()
{
    static unsigned char* page = [] { long ps = 4096; auto p = static_cast<unsigned char*>(mmap(nullptr, std::size_t(2 * ps), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); return p; }();
    auto n = choose(20); auto fill = choose(4);
    mprotect(page, 4096, PROT_READ | PROT_WRITE); mprotect(page + 4096, 4096, PROT_NONE);
    std::size_t bytes = (n + 7) / 8; unsigned char* p = page + 4096 - bytes; V m(n);
    for (std::size_t i = 0; i < bytes; ++i) p[i] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xa5 : 0x3c;
    for (std::size_t i = 0; i < n; ++i) m[i] = (p[i / 8] >> (i % 8)) & 1;
    mprotect(page, 4096, PROT_READ);
    if (flip()) { sparrow::dynamic_bitset_view<std::uint8_t> v(p, n); check_reads(v, m); }
    else { sparrow::dynamic_bitset_view<const std::uint8_t> v(p, n); check_reads(v, m); }
}
static void no_memory()
{
    auto n = pick(std::vector<std::size_t>{0, 1, 7, 8, 9, 64, 100}); V m(n, true);
    if (flip()) { sparrow::dynamic_bitset_view<std::uint8_t> v(nullptr, n); check_reads(v, m); auto c = v; check_reads(c, m); }
    else { sparrow::dynamic_bitset_view<const std::uint8_t> v(nullptr, n); check_reads(v, m); sparrow::dynamic_bitset_view<const std::uint8_t> w(nullptr, n, 0); check_reads(w, m); }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        std::vector<std::size_t> small; for (std::size_t i = 0; i <= (thorough() ? 17u : 11u); ++i) small.push_back(i);
        add("u8 reads", [=] { reads<std::uint8_t>(small, tier(11, 17)); });
        add("u8 reads big", [] { reads<std::uint8_t>({12, 15, 16, 17, 23, 24, 25, 63, 64, 65, 127, 128, 129, 1000}, 0); });
        add("u16 reads", [] { reads<std::uint16_t>({0, 1, 8, 15, 16, 17, 31, 32, 33, 100}, 8); });
        add("u32 reads", [] { reads<std::uint32_t>({0, 1, 31, 32, 33, 63, 64, 65}, 0); });
        add("u64 reads", [] { reads<std::uint64_t>({0, 1, 8, 63, 64, 65, 127, 128, 129, 1000}, 8); });
        add("u8 writes", [] { writes<std::uint8_t>({1, 2, 7, 8, 9}, 3, tier(2, 3)); });
        add("u8 writes big", [] { writes<std::uint8_t>({15, 16, 17, 64, 65, 200}, 0, 2); });
        add("u64 writes", [] { writes<std::uint64_t>({1, 63, 64, 65, 128}, 1, 2); });
        add("u16 writes", [] { writes<std::uint16_t>({1, 15, 16, 17, 33}, 1, 2); });
        add("read-only memory ending at a guard page", readonly_memory);
        add("no memory", no_memory);
    });
}
