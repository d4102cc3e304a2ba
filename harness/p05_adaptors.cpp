// P05: buffer_adaptor / u8_buffer / buffer_view are faithful typed windows on bytes.
#include "common/vp.hpp"
#include <sparrow/buffer/buffer.hpp>
#include <sparrow/buffer/buffer_adaptor.hpp>
#include <sparrow/buffer/buffer_view.hpp>
#include <sparrow/buffer/u8_buffer.hpp>
#include <cstring>
#include <list>
#include <vector>
using namespace vp;
template <class To> static To mk(int v) { return To(To(v) * To(257) + To(v)); }

template <class A, class To>
static void agree(A& a, const std::vector<To>& m, const char* what)
{
    const A& c = a;
    VP_CHECK(c.size() == m.size(), "%s: size %zu expected %zu", what, std::size_t(c.size()), m.size());
    VP_CHECK(c.empty() == m.empty()); VP_CHECK(c.max_size() >= c.size());
    auto it = a.begin(); auto cit = c.begin(); auto ccit = c.cbegin(); auto rit = a.rbegin(); auto crit = c.crbegin(); auto crit2 = c.rbegin();
    for (std::size_t i = 0; i < m.size(); ++i, ++it, ++cit, ++ccit, ++rit, ++crit, ++crit2)
    {
        VP_CHECK(a[i] == m[i], "%s: element %zu", what, i); VP_CHECK(c[i] == m[i]); VP_CHECK(a.data()[i] == m[i]); VP_CHECK(c.data()[i] == m[i]);
        VP_CHECK(*it == m[i]); VP_CHECK(*cit == m[i]); VP_CHECK(*ccit == m[i]);
        VP_CHECK(*rit == m[m.size() - 1 - i]); VP_CHECK(*crit == m[m.size() - 1 - i]); VP_CHECK(*crit2 == m[m.size() - 1 - i]);
    }
    VP_CHECK(it == a.end()); VP_CHECK(cit == c.end()); VP_CHECK(ccit == c.cend()); VP_CHECK(rit == a.rend()); VP_CHECK(crit == c.crend()); VP_CHECK(crit2 == c.rend());
    if (!m.empty()) { VP_CHECK(a.front() == m.front()); VP_CHECK(a.back() == m.back()); VP_CHECK(c.front() == m.front()); VP_CHECK(c.back() == m.back()); }
}
static std::vector<std::size_t> positions(std::size_t n, bool incl_end)
{
    std::vector<std::size_t> r;
    if (n <= 5) for (std::size_t i = 0; i < n + incl_end; ++i) r.push_back(i);
    else { r = {0, 1, n / 2, n - 1}; if (incl_end) r.push_back(n); }
    return r;
}
template <class To, class A>
static void step(A& b, std::vector<To>& m, int& next)
{
    auto P = [&](std::size_t i) { return b.cbegin() + std::ptrdiff_t(i); };
    auto M = [&](std::size_t i) { return m.begin() + std::ptrdiff_t(i); };
    auto ret = [&](auto it, std::size_t i, const char* w) { VP_CHECK(it - b.begin() == std::ptrdiff_t(i), "%s returned position %td expected %zu", w, it - b.begin(), i); };
    auto nv = [&] { return mk<To>(next++); };
    auto nvs = [&](std::size_t n) { std::vector<To> r; while (n--) r.push_back(nv()); return r; };
    switch (choose(18))
    {
    case 0: { To v = nv(); note([&]{ return std::string("push_back"); }); b.push_back(v); m.push_back(v); break; }
    case 1: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false)); note([&]{ return fmt("push_back(self[%zu])", i); }); b.push_back(b[i]); To v = m[i]; m.push_back(v); break; }
    case 2: { if (m.empty()) prune(); note([&]{ return std::string("pop_back"); }); b.pop_back(); m.pop_back(); break; }
    case 3: { auto i = pick(positions(m.size(), true)); To v = nv(); note([&]{ return fmt("insert(%zu)", i); }); auto it = b.insert(P(i), v); m.insert(M(i), v); ret(it, i, "insert"); break; }
    case 4: { if (m.empty()) prune(); auto i = pick(positions(m.size(), true)), j = pick(positions(m.size(), false)); note([&]{ return fmt("insert(%zu,self[%zu])", i, j); }); To v = m[j]; auto it = b.insert(P(i), b[j]); m.insert(M(i), v); ret(it, i, "insert"); break; }
    case 5: { auto i = pick(positions(m.size(), true)); std::size_t c = pick(std::vector<std::size_t>{0, 1, 2, 3, 40}); To v = nv(); note([&]{ return fmt("insert(%zu,count %zu)", i, c); }); auto it = b.insert(P(i), c, v); m.insert(M(i), c, v); ret(it, i, "insert count"); break; }
    case 6: { if (m.empty()) prune(); auto i = pick(positions(m.size(), true)), j = pick(positions(m.size(), false)); std::size_t c = 1 + choose(2); note([&]{ return fmt("insert(%zu,count %zu,self[%zu])", i, c, j); }); To v = m[j]; auto it = b.insert(P(i), c, b[j]); m.insert(M(i), c, v); ret(it, i, "insert count self"); break; }
    case 7: { auto i = pick(positions(m.size(), true)); auto vs = nvs(pick(std::vector<std::size_t>{0, 1, 3})); note([&]{ return fmt("insert(%zu,range %zu)", i, vs.size()); }); typename A::iterator it;
              if (flip()) it = b.insert(P(i), vs.begin(), vs.end()); else { std::list<To> l(vs.begin(), vs.end()); it = b.insert(P(i), l.begin(), l.end()); } m.insert(M(i), vs.begin(), vs.end()); ret(it, i, "insert range"); break; }
    case 8: { auto i = pick(positions(m.size(), true)); auto vs = nvs(2); note([&]{ return fmt("insert(%zu,ilist)", i); }); auto it = b.insert(P(i), {vs[0], vs[1]}); m.insert(M(i), vs.begin(), vs.end()); ret(it, i, "insert ilist"); break; }
    case 9: { auto i = pick(positions(m.size(), true)); To v = nv(); note([&]{ return fmt("emplace(%zu)", i); }); auto it = b.emplace(P(i), v); m.insert(M(i), v); ret(it, i, "emplace"); break; }
    case 10: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false)); note([&]{ return fmt("erase(%zu)", i); }); auto it = b.erase(P(i)); m.erase(M(i)); ret(it, i, "erase"); break; }
    case 11: { if (m.empty()) prune(); auto ps = positions(m.size(), true); auto i = pick(ps), j = pick(ps); if (j <= i) prune(); note([&]{ return fmt("erase(%zu,%zu)", i, j); }); auto it = b.erase(P(i), P(j)); m.erase(M(i), M(j)); ret(it, i, "erase range"); break; }
    case 12: { std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, 4, m.size() + 1, 33}); note([&]{ return fmt("resize(%zu)", n); }); b.resize(n); m.resize(n, To(0)); break; }
    case 13: { std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, 4, m.size() + 1, 33}); To v = nv(); note([&]{ return fmt("resize(%zu,v)", n); }); b.resize(n, v); m.resize(n, v); break; }
    case 14: { if (m.empty()) prune(); std::size_t n = m.size() + 1 + choose(2); auto j = pick(positions(m.size(), false)); note([&]{ return fmt("resize(%zu,self[%zu])", n, j); }); To v = m[j]; b.resize(n, b[j]); m.resize(n, v); break; }
    case 15: { note([&]{ return std::string("clear"); }); b.clear(); m.clear(); break; }
    case 16: { std::size_t n = m.size() + choose(3); note([&]{ return fmt("reserve(%zu), shrink_to_fit", n); }); b.reserve(n); VP_CHECK(b.capacity() >= n); agree(b, m, "reserve"); if (flip()) { b.shrink_to_fit(); VP_CHECK(b.capacity() == b.size()); } break; }
    case 17: { if (m.empty()) prune(); auto i = pick(positions(m.size(), false)); To v = nv(); note([&]{ return fmt("write %zu", i); }); switch (choose(3)) { case 0: b[i] = v; break; case 1: b.data()[i] = v; break; case 2: b.begin()[std::ptrdiff_t(i)] = v; break; } m[i] = v; break; }
    }
}
template <class To, class From>
static void bytes_agree(const sparrow::buffer<From>& raw, const std::vector<To>& m)
{
    VP_CHECK(raw.size() * sizeof(From) == m.size() * sizeof(To), "underlying buffer has %zu bytes expected %zu", raw.size() * sizeof(From), m.size() * sizeof(To));
    VP_CHECK(m.empty() || std::memcmp(raw.template data<From>(), m.data(), m.size() * sizeof(To)) == 0, "underlying bytes differ");
}
template <class To, class From>
static void adaptor_histories(std::uint32_t depth)
{
    LeakScope l;
    {
        int next = 1; auto n = choose(4); std::vector<To> m; for (std::uint32_t i = 0; i < n; ++i) m.push_back(mk<To>(next++));
        sparrow::buffer<From> raw(n * sizeof(To) / sizeof(From)); if (n) std::memcpy(raw.template data<void>(), m.data(), n * sizeof(To));
        note([&]{ return fmt("adaptor of %u elements", n); });
        auto b = sparrow::make_buffer_adaptor<To>(raw);
        agree(b, m, "construction");
        for (std::uint32_t left = depth; left; --left)
        {
            Hash h; h(m.size())(raw.capacity()); std::vector<To> seen;
            for (To v : m) { std::size_t k = 0; while (k < seen.size() && seen[k] != v) ++k; if (k == seen.size()) seen.push_back(v); h(k); }
            fresh(h.h, left);
            step<To>(b, m, next); agree(b, m, "after the operation"); bytes_agree<To, From>(raw, m);
        }
        const auto& craw = raw; auto cb = sparrow::make_buffer_adaptor<To>(craw);
        VP_CHECK(cb.size() == m.size()); for (std::size_t i = 0; i < m.size(); ++i) VP_CHECK(cb[i] == m[i]);
    }
}
template <class To>
static void u8_histories(std::uint32_t depth)
{
    LeakScope l;
    {
        int next = 1; std::vector<To> m;
        auto build = [&]() -> sparrow::u8_buffer<To> {
            auto n = pick(std::vector<std::size_t>{0, 1, 2, 3, 9, 100});
            switch (choose(5)) {
            case 0: m.assign(n, mk<To>(7)); return sparrow::u8_buffer<To>(n, mk<To>(7));
            case 1: m.assign(n, To{}); return sparrow::u8_buffer<To>(n);
            case 2: { for (std::size_t i = 0; i < n; ++i) m.push_back(mk<To>(next++)); return sparrow::u8_buffer<To>(m); }
            case 3: { for (std::size_t i = 0; i < n; ++i) m.push_back(mk<To>(next++)); std::list<To> s(m.begin(), m.end()); return sparrow::u8_buffer<To>(s); }
            default: { if (n != 2) prune(); m = {mk<To>(1), mk<To>(2)}; return sparrow::u8_buffer<To>({mk<To>(1), mk<To>(2)}); }
            } };
        sparrow::u8_buffer<To> b = build();
        note([&]{ return fmt("u8_buffer of %zu", m.size()); });
        agree(b, m, "construction");
        for (std::uint32_t k = 0; k < depth; ++k) { step<To>(b, m, next); agree(b, m, "after the operation"); }
        switch (choose(3)) {
        case 0: { sparrow::u8_buffer<To> c(b); agree(c, m, "copy"); if (!m.empty()) { c[0] = mk<To>(99); agree(b, m, "independence of the copy"); c.push_back(mk<To>(5)); agree(b, m, "independence of the copy"); } break; }
        case 1: { sparrow::u8_buffer<To> c(std::move(b)); agree(c, m, "moved"); c.push_back(mk<To>(5)); m.push_back(mk<To>(5)); agree(c, m, "grown after move"); break; }
        case 2: { sparrow::buffer<std::uint8_t> raw = std::move(b).extract_storage(); bytes_agree<To, std::uint8_t>(raw, m); break; }
        }
    }
}
template <class T>
static void views()
{
    LeakScope l;
    {
        std::size_t n = choose(6); std::vector<T> m; for (std::size_t i = 0; i < n; ++i) m.push_back(mk<T>(int(i) + 1));
        T* mem = new T[n ? n : 1]; std::copy(m.begin(), m.end(), mem); sparrow::buffer<T> owner(m);
        auto all = [&](auto v, const std::vector<T>& e, const char* w) { agree(v, e, w); };
        sparrow::buffer_view<T> v = [&]() -> sparrow::buffer_view<T> { switch (choose(3)) { case 0: return sparrow::buffer_view<T>(mem, n); case 1: return sparrow::buffer_view<T>(owner); default: return sparrow::buffer_view<T>(mem, mem + n); } }();
        const T* base = v.template data<T>();
        VP_CHECK(base == mem || base == owner.template data<T>(), "a view must not copy");
        all(v, m, "view"); sparrow::buffer_view<const T> cv(v.template data<T>(), n);
        { VP_CHECK(cv.size() == n); for (std::size_t i = 0; i < n; ++i) VP_CHECK(cv[i] == m[i]); }
        std::size_t i = choose(std::uint32_t(n + 1)), j = choose(std::uint32_t(n + 1)); if (j < i) prune();
        std::vector<T> sub(m.begin() + std::ptrdiff_t(i), m.begin() + std::ptrdiff_t(j));
        auto s = v.subrange(i, j - i); all(s, sub, "subrange"); VP_CHECK(s.template data<T>() == base + i);
        all(v.subrange(i), std::vector<T>(m.begin() + std::ptrdiff_t(i), m.end()), "suffix");
        { auto cs = cv.subrange(cv.cbegin() + std::ptrdiff_t(i), cv.cbegin() + std::ptrdiff_t(j)); VP_CHECK(cs.size() == sub.size()); for (std::size_t k = 0; k < sub.size(); ++k) VP_CHECK(cs[k] == sub[k]); }
        { sparrow::buffer<T> copy = static_cast<sparrow::buffer<T>>(s); VP_CHECK(copy.size() == sub.size()); VP_CHECK(copy.empty() || copy.template data<T>() != s.template data<T>(), "conversion to buffer copies"); for (std::size_t k = 0; k < sub.size(); ++k) VP_CHECK(copy[k] == sub[k]); }
        VP_CHECK((s == v) == (sub == m)); VP_CHECK(s == v.subrange(i, j - i));
        if (!sub.empty()) { s[0] = mk<T>(50); VP_CHECK(v[i] == mk<T>(50), "write through a view"); m[i] = mk<T>(50); all(v, m, "after write"); }
        sparrow::buffer_view<T> e; VP_CHECK(e.empty()); e.swap(v); all(e, m, "swapped"); VP_CHECK(v.empty());
        delete[] mem;
    }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        add("u32 over u8", [] { adaptor_histories<std::uint32_t, std::uint8_t>(tier(3, 4)); }, {.stateful = true});
        add("u16 over u8", [] { adaptor_histories<std::uint16_t, std::uint8_t>(tier(2, 3)); }, {.stateful = true});
        add("u64 over u8", [] { adaptor_histories<std::uint64_t, std::uint8_t>(tier(2, 3)); }, {.stateful = true});
        add("double over u8", [] { adaptor_histories<double, std::uint8_t>(tier(2, 3)); }, {.stateful = true});
        add("u32 over u16", [] { adaptor_histories<std::uint32_t, std::uint16_t>(tier(2, 3)); }, {.stateful = true});
        add("u8 over u8", [] { adaptor_histories<std::uint8_t, std::uint8_t>(tier(2, 3)); }, {.stateful = true});
        add("u8_buffer<i32>", [] { u8_histories<std::int32_t>(tier(1, 2)); });
        add("u8_buffer<u8>", [] { u8_histories<std::uint8_t>(tier(1, 2)); });
        add("u8_buffer<double>", [] { u8_histories<double>(1); });
        add("buffer_view<i32>", views<std::int32_t>);
        add("buffer_view<u8>", views<std::uint8_t>);
        add("buffer_view<double>", views<double>);
    });
}
