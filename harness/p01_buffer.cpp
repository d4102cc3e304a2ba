// P01: buffer<T> is observationally a std::vector<T> over every operation history.
#include "common/vp.hpp"
#include <sparrow/buffer/buffer.hpp>
#include <map>
#include <memory>
#include <new>
#include <vector>
#include <list>
using namespace vp;

struct Obj                  // element whose lifetime errors are observable (leak, double free, wild read)
{
    int* p;
    Obj() : p(new int(0)) {}
    explicit Obj(int v) : p(new int(v)) {}
    Obj(const Obj& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Obj(Obj&& o) noexcept : p(o.p) { o.p = nullptr; }
    Obj& operator=(const Obj& o) { if (this != &o) { int* n = o.p ? new int(*o.p) : nullptr; delete p; p = n; } return *this; }
    Obj& operator=(Obj&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Obj() { delete p; p = nullptr; }
    friend bool operator==(const Obj& a, const Obj& b) { return a.p && b.p ? *a.p == *b.p : a.p == b.p; }
};
static int val(const Obj& o) { return o.p ? *o.p : -999; }
static int val(int v) { return v; }
static int val(std::uint8_t v) { return v; }
static int val(bool v) { return v; }
static int val(double v) { return int(v); }
template <class T> T mk(int v) { if constexpr (std::is_same_v<T, bool>) return v & 1; else return T(v); }

// std::vector<bool> is not a container of bool; the reference for T=bool is a vector of ints
template <class T>
struct Ref
{
    std::vector<int> v;
};

template <class T>
static void agree(sparrow::buffer<T>& b, const std::vector<int>& m, const char* what)
{
    const auto& cb = b;
    VP_CHECK(b.size() == m.size(), "%s: size %zu expected %zu", what, b.size(), m.size());
    VP_CHECK(b.empty() == m.empty(), "%s", what);
    VP_CHECK(b.capacity() >= b.size(), "%s", what);
    VP_CHECK(std::size_t(b.end() - b.begin()) == m.size());
    VP_CHECK(std::size_t(cb.cend() - cb.cbegin()) == m.size());
    VP_CHECK(b.max_size() >= b.size());
    const T* d = cb.template data<T>();
    VP_CHECK(b.template data<T>() == d);
    auto it = b.begin(); auto cit = cb.begin(); auto ccit = b.cbegin(); auto rit = b.rbegin(); auto crit = cb.crbegin();
    for (std::size_t i = 0; i < m.size(); ++i, ++it, ++cit, ++ccit, ++rit, ++crit)
    {
        VP_CHECK(val(b[i]) == m[i], "%s: element %zu is %d expected %d", what, i, val(b[i]), m[i]);
        VP_CHECK(val(cb[i]) == m[i]);
        VP_CHECK(val(d[i]) == m[i]);
        VP_CHECK(val(*it) == m[i]); VP_CHECK(val(*cit) == m[i]); VP_CHECK(val(*ccit) == m[i]);
        VP_CHECK(val(*rit) == m[m.size() - 1 - i]); VP_CHECK(val(*crit) == m[m.size() - 1 - i]);
    }
    VP_CHECK(it == b.end()); VP_CHECK(cit == cb.end()); VP_CHECK(ccit == b.cend()); VP_CHECK(rit == b.rend()); VP_CHECK(crit == cb.crend());
    if (!m.empty()) { VP_CHECK(val(b.front()) == m.front()); VP_CHECK(val(b.back()) == m.back()); VP_CHECK(val(cb.front()) == m.front()); VP_CHECK(val(cb.back()) == m.back()); }
}

static std::uint64_t canon(const std::vector<int>& m, std::size_t cap)
{
    // buffers are data independent: states are matched up to a renaming of the values
    std::map<int, int> ren;
    Hash h; h(cap)(m.size());
    for (int v : m) h(ren.try_emplace(v, int(ren.size())).first->second);
    return h.h;
}

template <class T>
struct Sys
{
    sparrow::buffer<T> b;
    std::vector<int> m;
    int next = 1;
    int fresh_value() { if constexpr (std::is_same_v<T, bool>) return int(choose(2)); else return next++; }
    std::vector<int> values(std::size_t n) { std::vector<int> r(n); for (auto& x : r) { if constexpr (std::is_same_v<T, bool>) { x = (next++ / 2) & 1; } else x = next++; } return r; }
};
template <class T> std::vector<T> mkv(const std::vector<int>& v) { std::vector<T> r; r.reserve(v.size()); for (int x : v) r.push_back(mk<T>(x)); return r; }

template <class T>
static void construct(Sys<T>& s, const std::vector<std::uint32_t>& sizes)
{
    using B = sparrow::buffer<T>;
    auto n = pick(sizes);
    switch (choose(8))
    {
    case 0: { if (n) prune(); s.b = B(); break; }
    case 1: { note([&]{ return fmt("buffer(%u)", n); }); s.b = B(std::size_t(n)); s.m.assign(n, 0); break; }
    case 2: { int v = s.fresh_value(); note([&]{ return fmt("buffer(%u, %d)", n, v); }); s.b = B(std::size_t(n), mk<T>(v)); s.m.assign(n, v); break; }
    case 3: { if (n > 3) prune(); s.m = s.values(n); note([&]{ return fmt("buffer{init list of %u}", n); });
              if (n == 0) s.b = B(std::initializer_list<T>{}); 
              if (n == 1) s.b = B({mk<T>(s.m[0])}); 
              if (n == 2) s.b = B({mk<T>(s.m[0]), mk<T>(s.m[1])}); 
              if (n == 3) s.b = B({mk<T>(s.m[0]), mk<T>(s.m[1]), mk<T>(s.m[2])}); break; }
    case 4: { s.m = s.values(n); note([&]{ return fmt("buffer(iterators, %u)", n); }); auto v = mkv<T>(s.m); std::list<T> l(v.begin(), v.end()); s.b = B(l.begin(), l.end()); break; }
    case 5: { s.m = s.values(n); note([&]{ return fmt("buffer(range, %u)", n); }); auto v = mkv<T>(s.m); s.b = B(v); break; }
    case 6: { s.m = s.values(n); note([&]{ return fmt("buffer(adopted pointer, %u)", n); });
              std::allocator<T> a; T* p = a.allocate(n); for (std::size_t i = 0; i < n; ++i) new (p + i) T(mk<T>(s.m[i]));
              s.b = B(p, std::size_t(n), a); break; }
    case 7: { s.m = s.values(n); auto v = mkv<T>(s.m); B src(v); B c(src, std::allocator<T>()); VP_CHECK(c == src); s.b = c; agree(src, s.m, "copied-from"); break; }
    }
    agree(s.b, s.m, "construction");
}

// positions worth distinguishing: all when small, borders and middle when large
static std::vector<std::size_t> positions(std::size_t n, bool incl_end)
{
    std::vector<std::size_t> r;
    if (n <= 6) for (std::size_t i = 0; i < n + incl_end; ++i) r.push_back(i);
    else { r = {0, 1, n / 2, n - 1}; if (incl_end) r.push_back(n); }
    return r;
}

template <class T>
static void step(Sys<T>& s, bool big)
{
    using B = sparrow::buffer<T>;
    auto& b = s.b; auto& m = s.m;
    auto P = [&](std::size_t i) { return b.cbegin() + std::ptrdiff_t(i); };
    auto M = [&](std::size_t i) { return m.begin() + std::ptrdiff_t(i); };
    auto check_it = [&](auto it, std::size_t i, const char* what) { VP_CHECK(std::size_t(it - b.begin()) == i, "%s returned position %td expected %zu", what, it - b.begin(), i); };
    switch (choose(24))
    {
    case 0: { int v = s.fresh_value(); note([&]{ return fmt("push_back(%d)", v); }); b.push_back(mk<T>(v)); m.push_back(v); break; }
    case 1: { int v = s.fresh_value(); note([&]{ return fmt("push_back(const& %d)", v); }); const T t = mk<T>(v); b.push_back(t); m.push_back(v); VP_CHECK(val(t) == v); break; }
    case 2: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false)); note([&]{ return fmt("push_back(self[%zu])", i); }); b.push_back(b[i]); int v = m[i]; m.push_back(v); break; }
    case 3: { auto i = pick(positions(m.size(), true)); int v = s.fresh_value(); note([&]{ return fmt("insert(%zu, %d)", i, v); });
              auto it = b.insert(P(i), mk<T>(v)); m.insert(M(i), v); check_it(it, i, "insert"); break; }
    case 4: { auto i = pick(positions(m.size(), true)); int v = s.fresh_value(); const T t = mk<T>(v); note([&]{ return fmt("insert(%zu, const& %d)", i, v); });
              auto it = b.insert(P(i), t); m.insert(M(i), v); check_it(it, i, "insert"); VP_CHECK(val(t) == v); break; }
    case 5: { if (m.empty()) prune(); auto i = pick(positions(m.size(), true)); auto j = pick(positions(m.size(), false)); note([&]{ return fmt("insert(%zu, self[%zu])", i, j); });
              const T& own = b[j]; auto it = b.insert(P(i), own); int v = m[j]; m.insert(M(i), v); check_it(it, i, "insert"); break; }
    case 6: { auto i = pick(positions(m.size(), true)); std::uint32_t c = choose(big ? 6 : 4); if (c == 5) c = 70; int v = s.fresh_value(); const T t = mk<T>(v);
              note([&]{ return fmt("insert(%zu, count %u, %d)", i, c, v); }); auto it = b.insert(P(i), std::size_t(c), t); m.insert(M(i), c, v); check_it(it, i, "insert count"); break; }
    case 7: { if (m.empty()) prune(); auto i = pick(positions(m.size(), true)); auto j = pick(positions(m.size(), false)); auto c = 1 + choose(2);
              note([&]{ return fmt("insert(%zu, count %u, self[%zu])", i, c, j); }); const T& own = b[j]; auto it = b.insert(P(i), std::size_t(c), own); int v = m[j]; m.insert(M(i), c, v); check_it(it, i, "insert count self"); break; }
    case 8: { auto i = pick(positions(m.size(), true)); std::uint32_t c = choose(big ? 6 : 4); if (c == 5) c = 70; auto vs = s.values(c); note([&]{ return fmt("insert(%zu, iterators, %u)", i, c); });
              auto src = mkv<T>(vs); auto it = [&] { if constexpr (std::is_same_v<T, bool>) { B tmp(src.begin(), src.end()); return b.insert(P(i), tmp.begin(), tmp.end()); } else return b.insert(P(i), src.begin(), src.end()); }();
              m.insert(M(i), vs.begin(), vs.end()); check_it(it, i, "insert range");
              VP_CHECK(mkv<T>(vs) == src, "source range changed"); break; }
    case 9: { auto i = pick(positions(m.size(), true)); std::uint32_t c = choose(4); auto vs = s.values(c); note([&]{ return fmt("insert(%zu, range, %u)", i, c); });
              B src(mkv<T>(vs)); auto it = b.insert(P(i), src); m.insert(M(i), vs.begin(), vs.end()); check_it(it, i, "insert range"); break; }
    case 10: { auto i = pick(positions(m.size(), true)); auto vs = s.values(2); note([&]{ return fmt("insert(%zu, {2 values})", i); });
              auto it = b.insert(P(i), {mk<T>(vs[0]), mk<T>(vs[1])}); m.insert(M(i), vs.begin(), vs.end()); check_it(it, i, "insert ilist"); break; }
    case 11: { auto i = pick(positions(m.size(), true)); int v = s.fresh_value(); note([&]{ return fmt("emplace(%zu, %d)", i, v); });
              auto it = b.emplace(P(i), mk<T>(v)); m.insert(M(i), v); check_it(it, i, "emplace"); break; }
    case 12: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false)); note([&]{ return fmt("erase(%zu)", i); });
              auto it = b.erase(P(i)); m.erase(M(i)); check_it(it, i, "erase"); break; }
    case 13: { if (m.empty()) prune(); auto ps = positions(m.size(), true); auto i = pick(ps); auto j = pick(ps); if (j <= i) prune(); note([&]{ return fmt("erase(%zu, %zu)", i, j); });
              auto it = b.erase(P(i), P(j)); m.erase(M(i), M(j)); check_it(it, i, "erase"); break; }
    case 14: { if (m.empty()) prune(); note([&]{ return std::string("pop_back()"); }); b.pop_back(); m.pop_back(); break; }
    case 15: { auto n = choose(big ? 3 : 7); std::size_t k = big ? (n == 0 ? m.size() / 2 : n == 1 ? m.size() + 1 : 2 * m.size() + 3) : n; note([&]{ return fmt("resize(%zu)", k); }); b.resize(k); m.resize(k, 0); break; }
    case 16: { auto n = choose(big ? 3 : 7); std::size_t k = big ? (n == 0 ? m.size() / 2 : n == 1 ? m.size() + 1 : 2 * m.size() + 3) : n; int v = s.fresh_value(); note([&]{ return fmt("resize(%zu, %d)", k, v); }); b.resize(k, mk<T>(v)); m.resize(k, v); break; }
    case 17: { if (m.empty()) prune(); std::size_t k = m.size() + 1 + choose(3); auto j = pick(positions(m.size(), false)); note([&]{ return fmt("resize(%zu, self[%zu])", k, j); }); const T& own = b[j]; int v = m[j]; b.resize(k, own); m.resize(k, v); break; }
    case 18: { std::size_t k = m.size() + choose(4); note([&]{ return fmt("reserve(%zu)", k); }); auto cap = b.capacity(); const T* d = b.template data<T>(); b.reserve(k); VP_CHECK(b.capacity() >= k); VP_CHECK(b.capacity() >= cap); if (k <= cap) VP_CHECK(b.template data<T>() == d, "reserve within capacity moved the storage"); break; }
    case 19: { note([&]{ return std::string("shrink_to_fit()"); }); b.shrink_to_fit(); VP_CHECK(b.capacity() == b.size()); break; }
    case 20: { note([&]{ return std::string("clear()"); }); b.clear(); m.clear(); break; }
    case 21: { auto n = choose(big ? 6 : 5); if (n == 5) n = 200; auto vs = s.values(n); B o(mkv<T>(vs)); if (flip()) o.reserve(n + 2); note([&]{ return fmt("= const buffer& of %u", n); }); b = o; agree(o, vs, "assigned-from"); m = vs; agree(b, m, "assign");
               if (n) { o[0] = mk<T>(vs[0] + 1); agree(b, m, "independence after copy assign"); } B& self = b; b = self; break; }
    case 22: { auto n = choose(4); auto vs = s.values(n); switch (choose(4)) {
               case 0: { B o(mkv<T>(vs)); note([&]{ return fmt("= buffer&& of %u", n); }); b = std::move(o); m = vs; break; }
               case 1: { B o(mkv<T>(vs)); note([&]{ return fmt("swap with buffer of %u", n); }); auto old = m; b.swap(o); m = vs; agree(o, old, "swapped"); break; }
               case 2: { if (n != 2) prune(); note([&]{ return std::string("= {2 values}"); }); b = {mk<T>(vs[0]), mk<T>(vs[1])}; m = vs; break; }
               case 3: { if (n) prune(); note([&]{ return std::string("self move assignment / move round trip"); }); B o(std::move(b)); agree(o, m, "moved-to"); VP_CHECK(b.size() == 0 && b.empty(), "moved-from buffer is empty"); b = std::move(o); break; } }
               break; }
    case 23: { note([&]{ return std::string("copy and compare"); }); B c(b); VP_CHECK(c == b); agree(c, m, "copy"); if (!m.empty()) { c[0] = mk<T>(val(c[0]) + 1); VP_CHECK(!(c == b)); agree(b, m, "independence"); c.pop_back(); VP_CHECK(!(c == b)); }
               B d(std::move(c), std::allocator<T>()); break; }
    }
    agree(b, m, "after the operation");
}

template <class T>
static void histories(std::uint32_t depth)
{
    LeakScope l;
    {
        Sys<T> s;
        construct(s, {0, 1, 2, 3});
        for (std::uint32_t left = depth; left; --left) { fresh(canon(s.m, s.b.capacity()), left); step(s, false); }
    }
}
template <class T>
static void big_histories(std::uint32_t depth)
{
    LeakScope l;
    {
        Sys<T> s;
        construct(s, {7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000});
        for (std::uint32_t left = depth; left; --left) step(s, true);
    }
}
// every allocation of every single operation fails once: contents are unchanged, nothing leaks
template <class T>
static void alloc_failure()
{
    LeakScope l;
    {
        Sys<T> s; using B = sparrow::buffer<T>;
        auto n = choose(4); s.m = s.values(n); auto src = mkv<T>(s.m); auto extra = mkv<T>(s.values(9)); const T one = mk<T>(77);
        {
            auto op = choose(9); std::int64_t k = 1 + choose(2);
            s.b = B(src); if (flip()) s.b.reserve(n + 2); auto cap = s.b.capacity();
            fail_alloc_at = k; bool threw = false;
            try {
                switch (op) {
                case 0: s.b.push_back(one); break;
                case 1: s.b.insert(s.b.cbegin(), one); break;
                case 2: s.b.insert(s.b.cbegin(), std::size_t(9), one); break;
                case 3: s.b.insert(s.b.cend(), extra.begin(), extra.end()); break;
                case 4: s.b.resize(n + 9, one); break;
                case 5: s.b.reserve(n + 9); break;
                case 6: { B c(s.b); break; }
                case 7: { B c(extra.begin(), extra.end()); break; }
                case 8: { s.b.shrink_to_fit(); break; }
                }
            } catch (const std::bad_alloc&) { threw = true; }
            fail_alloc_at = 0;
            if (threw) { cover("allocation failed"); note([&]{ return fmt("operation %u failed to allocate", op); }); agree(s.b, s.m, "after failed allocation"); VP_CHECK(s.b.capacity() == cap); }
            else cover("allocation not needed");
        }
    }
}
static void length_errors()
{
    LeakScope l;
    using B = sparrow::buffer<int>;
    B b{1, 2, 3};
    switch (choose(3)) {
    case 0: VP_THROWS(std::length_error, b.reserve(b.max_size() + 1)); break;
    case 1: VP_THROWS(std::length_error, B x(b.max_size() + 1)); break;
    case 2: VP_THROWS(std::length_error, B x(b.max_size() + 1, 5)); break;
    }
    agree(b, {1, 2, 3}, "after length_error");
}
// zero-copy adoption: a buffer built from a pointer uses that very storage and releases it exactly once
template <class T>
static void adoption()
{
    LeakScope l;
    auto n = choose(5); std::allocator<T> a; T* p = a.allocate(n); std::vector<int> m;
    for (std::uint32_t i = 0; i < n; ++i) { new (p + i) T(mk<T>(int(i) + 1)); m.push_back(val(p[i])); }
    {
        sparrow::buffer<T> b(p, std::size_t(n), a);
        if (n) VP_CHECK(b.template data<T>() == p, "adopted storage is not used in place");
        agree(b, m, "adopted");
        switch (choose(4)) {
        case 0: break;
        case 1: { sparrow::buffer<T> c(std::move(b)); if (n) VP_CHECK(c.template data<T>() == p, "moving copied the storage"); agree(c, m, "moved"); break; }
        case 2: { sparrow::buffer<T> c(b); if (n) VP_CHECK(c.template data<T>() != p); agree(c, m, "copied"); break; }
        case 3: { b.push_back(mk<T>(9)); m.push_back(val(mk<T>(9))); agree(b, m, "grown"); break; }
        }
    }
}

int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        add("int histories", [] { histories<int>(tier(3, 5)); }, {.stateful = true});
        add("Obj histories", [] { histories<Obj>(tier(3, 4)); }, {.stateful = true});
        add("bool histories", [] { histories<bool>(tier(2, 3)); }, {.stateful = true});
        add("u8 histories", [] { histories<std::uint8_t>(tier(2, 4)); }, {.stateful = true});
        add("double big", [] { big_histories<double>(1); });
        add("int big", [] { big_histories<int>(tier(1, 2)); });
        add("Obj big", [] { big_histories<Obj>(1); });
        add("int alloc failure", alloc_failure<int>);
        add("Obj adoption", adoption<Obj>);
        add("int adoption", adoption<int>);
        add("length errors", length_errors);
    });
}
