// Histories of mutations of a typed array, against a model of canonical texts
#pragma once
#include "src.hpp"
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <memory>

namespace mut
{
    using namespace vp;
    template <class A> using value_t = typename A::value_type;
    template <class A> using menu_t = std::vector<std::pair<value_t<A>, std::string>>;     // values and their canonical text

    // every byte of the storage, the structure and the elements shown
    template <class A> std::uint64_t state_of(A& x)
    {
        auto [a, s] = sparrow::get_arrow_structures(x);
        Hash h;
        h(a->length)(a->offset)(a->null_count)(s->flags);
        if (a->release == sparrow::release_arrow_array)
            for (auto& b : static_cast<sparrow::arrow_array_private_data*>(a->private_data)->buffers()) { h(std::uint64_t(b.size())); h.bytes(b.data(), b.size()); }
        return h.h;
    }
    struct Cfg { bool decode = true; bool copies = true; };
    template <class A> struct Run
    {
        A x;
        ar::Strs w;
        menu_t<A> menu;
        Cfg cfg;
        std::function<void()> unchanged = [] {};    // other arrays still hold what they held

        void check(const char* what)
        {
            VP_CHECK(x.size() == w.size(), "%s: size %zu, expected %zu", what, x.size(), w.size());
            VP_CHECK(x.empty() == w.empty(), "%s: empty", what);
            VP_SAME(sc::shown(std::as_const(x)), w, "%s: elements", what);
            VP_SAME(sc::shown(x), w, "%s: mutable elements", what);
            VP_SAME(sc::iterated(x), w, "%s: mutable iteration", what);
            VP_SAME(sc::iterated(std::as_const(x)), w, "%s: iteration", what);
            if (!w.empty()) { VP_CHECK(sc::canon(std::as_const(x).front()) == w.front() && sc::canon(std::as_const(x).back()) == w.back(), "%s: front, back", what); }
            if (cfg.decode)
            {
                auto [a, s] = sparrow::get_arrow_structures(x);
                zu::says(*s, *a, w, what);
                const auto nulls = std::count(w.begin(), w.end(), ar::null_());
                VP_CHECK(a->null_count == nulls, "%s: null count %ld, %ld nulls", what, long(a->null_count), long(nulls));
            }
            {
                std::size_t i = 0;
                for (auto b : x.bitmap()) { VP_CHECK(i < w.size() && b == (w[i] != ar::null_()), "%s: bitmap at %zu", what, i); ++i; }
                VP_CHECK(i == w.size(), "%s: %zu bits in the bitmap", what, i);
                i = 0;
                for (auto v : x.values()) { if (w[i] != ar::null_()) VP_CHECK(sc::canon(v) == w[i], "%s: values() at %zu", what, i); ++i; }
                VP_CHECK(i == w.size(), "%s: %zu values", what, i);
            }
            unchanged();
        }
        auto at(std::size_t i) { return sparrow::next(x.cbegin(), i); }
        void returned(typename A::iterator it, std::size_t i) { VP_CHECK(it - x.begin() == std::ptrdiff_t(i) && it == sparrow::next(x.begin(), i), "returned iterator designates %ld, expected %zu", long(it - x.begin()), i); if (i < w.size()) VP_CHECK(sc::canon(*it) == w[i], "returned iterator"); }
        std::size_t any() { return choose(std::uint32_t(menu.size())); }
        template <class It> void put(std::size_t p, It first, It last) { w.insert(w.begin() + std::ptrdiff_t(p), first, last); }

        void step(std::size_t limit)
        {
            const std::size_t n = w.size();
            auto room = [&](std::size_t k) { if (n + k > limit) prune(); };
            switch (choose(16))
            {
                case 0: { room(1); auto v = any(); note([&] { return "push_back " + menu[v].second; }); x.push_back(menu[v].first); w.push_back(menu[v].second); break; }
                case 1: { if (!n) prune(); note([] { return std::string("pop_back"); }); x.pop_back(); w.pop_back(); break; }
                case 2: { room(1); auto p = choose(std::uint32_t(n + 1)); auto v = any(); note([&] { return fmt("insert at %u ", p) + menu[v].second; }); auto it = x.insert(at(p), menu[v].first); w.insert(w.begin() + p, menu[v].second); returned(it, p); break; }
                case 3:
                {
                    auto p = choose(std::uint32_t(n + 1)); auto v = any(); const std::size_t k = pick(std::vector<std::size_t>{2, 0, 5}); room(k);
                    note([&] { return fmt("insert at %u %zu times ", p, k) + menu[v].second; });
                    auto it = x.insert(at(p), menu[v].first, k); w.insert(w.begin() + p, k, menu[v].second); returned(it, p); break;
                }
                case 4:
                {
                    auto p = choose(std::uint32_t(n + 1)); const std::size_t k = choose(3);
                    room(k);
                    std::vector<value_t<A>> r; ar::Strs t;
                    for (std::size_t i = 0; i < k; ++i) { auto v = any(); r.push_back(menu[v].first); t.push_back(menu[v].second); }
                    const bool whole = flip();
                    note([&] { return fmt("insert at %u the %s of %zu", p, whole ? "range" : "iterators", k); });
                    auto it = whole ? x.insert(at(p), r) : x.insert(at(p), r.cbegin(), r.cend());
                    put(p, t.begin(), t.end()); returned(it, p); break;
                }
                case 5:
                {
                    auto p = choose(std::uint32_t(n + 1)); auto v = any(), u = any(); room(2);
                    note([&] { return fmt("insert at %u the list ", p) + menu[v].second + " " + menu[u].second; });
                    auto it = x.insert(at(p), {menu[v].first, menu[u].first});
                    { const ar::Strs t{menu[v].second, menu[u].second}; put(p, t.begin(), t.end()); }
                    returned(it, p); break;
                }
                case 6: { if (!n) prune(); auto p = choose(std::uint32_t(n)); note([&] { return fmt("erase %u", p); }); auto it = x.erase(at(p)); w.erase(w.begin() + p); returned(it, p); break; }
                case 7:
                {
                    if (n < 2) prune();
                    auto p = choose(std::uint32_t(n)), q = p + 1 + choose(std::uint32_t(n - p));
                    note([&] { return fmt("erase [%u, %u)", p, q); });
                    auto it = x.erase(at(p), at(q)); w.erase(w.begin() + p, w.begin() + q); returned(it, p); break;
                }
                case 8:
                {
                    const std::size_t k = choose(std::uint32_t(std::min(limit, n + 3) + 1)); auto v = any();
                    note([&] { return fmt("resize %zu ", k) + menu[v].second; });
                    x.resize(k, menu[v].first); w.resize(k, menu[v].second); break;
                }
                case 9: { if (!n) prune(); auto p = choose(std::uint32_t(n)); auto v = any(); note([&] { return fmt("[%u] = ", p) + menu[v].second; }); x[p] = menu[v].first; w[p] = menu[v].second; break; }
                case 10: { if (!n) prune(); auto p = choose(std::uint32_t(n)); note([&] { return fmt("[%u] = nullval", p); }); x[p] = sparrow::nullval; w[p] = ar::null_(); break; }
                case 11:
                {
                    if (!n) prune();
                    auto p = choose(std::uint32_t(n)), q = choose(std::uint32_t(n));
                    note([&] { return fmt("[%u] = [%u]", p, q); });
                    if (flip()) x[p] = x[q];
                    else if constexpr (requires { x[p] = std::as_const(x)[q]; }) x[p] = std::as_const(x)[q];
                    else prune();
                    w[p] = w[q]; break;
                }
                case 12:
                {
                    if (!n) prune();
                    auto p = choose(std::uint32_t(n)); auto v = any();
                    note([&] { return fmt("*(begin + %u) = ", p) + menu[v].second; });
                    *sparrow::next(x.begin(), p) = menu[v].first; w[p] = menu[v].second; break;
                }
                case 13: { if (n < 2) prune(); note([] { return std::string("std::copy of the tail on the head"); }); std::copy(x.begin() + 1, x.end(), x.begin()); std::copy(w.begin() + 1, w.end(), w.begin()); break; }
                case 14:
                {
                    if (!n || !cfg.copies) prune();
                    note([] { return std::string("copied / moved"); });
                    switch (choose(3))
                    {
                        case 0: { A y(x); x = y; break; }
                        case 1: { A y(std::move(x)); x = std::move(y); break; }
                        case 2: { auto [a, s] = sparrow::extract_arrow_structures(std::move(x)); A y(sparrow::arrow_proxy(std::move(a), std::move(s))); x = std::move(y); break; }
                    }
                    break;
                }
                case 15:
                {
                    if (!n || !cfg.copies) prune();
                    auto s = choose(std::uint32_t(n)), e = s + choose(std::uint32_t(n - s + 1));
                    note([&] { return fmt("slice(%u, %u)", s, e); });
                    x = A(x.slice(s, e)); w = zu::sub(w, s, e); break;
                }
            }
        }
        void go(std::uint32_t depth, std::size_t limit)
        {
            check("start");
            for (std::uint32_t d = depth; d-- > 0;)
            {
                Hash h; h(state_of(x)); for (auto& t : w) h(t);
                fresh(h.h, d + 1);
                step(limit);
                check("after");
            }
        }
    };
}
