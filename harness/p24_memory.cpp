// P24: value_ptr, cloning_ptr and any_allocator keep value semantics and clean up
#include "common/vp.hpp"
#include <sparrow/utils/memory.hpp>
#include <sparrow/buffer/allocator.hpp>
#include <array>
#include <memory_resource>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>
using namespace vp;
namespace sp = sparrow;
template <class T> using M = std::optional<T>;

static int live = 0, throw_in = 0;      // live objects; >0: the n-th copy from now throws
struct Boom {};
struct Obj      // a heap block of its own, so that ASan and the leak check see every lifetime error
{
    int* v;
    static int* copy(int k) { if (throw_in > 0 && --throw_in == 0) throw Boom{}; return new int(k); }
    explicit Obj(int k = 0) : v(new int(k)) { ++live; }
    Obj(const Obj& o) : v(copy(*o.v)) { ++live; }
    Obj(Obj&& o) : v(new int(*o.v)) { ++live; *o.v = -7; }      // a moved object shows it
    Obj& operator=(const Obj& o) { if (throw_in > 0 && --throw_in == 0) throw Boom{}; *v = *o.v; return *this; }
    Obj& operator=(Obj&& o) { *v = *o.v; if (this != &o) *o.v = -7; return *this; }
    ~Obj() { delete v; v = nullptr; --live; }
};
// ---- value_ptr
using VP = sp::value_ptr<Obj>;
static void shows(VP& p, const M<int>& m, const char* what)
{
    const VP& c = p;
    VP_CHECK(p.has_value() == m.has_value() && bool(c) == m.has_value() && (p.get() != nullptr) == m.has_value() && c.get() == p.get(), "%s: %s", what, m ? "null" : "not null");
    if (m) VP_CHECK(*(*p).v == *m && *(*c).v == *m && *p->v == *m && *c->v == *m && &*p == p.get() && &*c == p.get(), "%s: %d, want %d", what, *p->v, *m);
}
static void value_history(std::uint32_t depth, bool stateful)
{
    LeakScope l;
    live = 0; throw_in = 0;
    {
        std::array<VP, 3> p{VP(Obj(1)), VP(), VP(Obj(2))};
        std::array<M<int>, 3> m{1, M<int>(), 2};
        const Obj outside(9);
        auto check = [&]
        {
            int n = 1;
            for (int i = 0; i < 3; ++i) { shows(p[std::size_t(i)], m[std::size_t(i)], "pointer"); n += m[std::size_t(i)].has_value(); for (int j = 0; j < i; ++j) VP_CHECK(!m[std::size_t(i)] || p[std::size_t(i)].get() != p[std::size_t(j)].get(), "two pointers share an object"); }
            VP_CHECK(live == n, "%d live objects, want %d", live, n);
            VP_CHECK(*outside.v == 9, "an object pointed to was taken instead of copied");
        };
        check();
        for (std::uint32_t step = 0; step < depth; ++step)
        {
            if (stateful) { Hash h; for (auto& x : m) h(x ? *x : -1); fresh(h.h, depth - step); }
            const auto i = choose(3); auto& a = p[i]; auto& ma = m[i];
            const auto op = choose(13);
            auto other = [&] { const auto j = choose(3); return j; };
            auto fault = [&](std::size_t j, auto f)     // a copy that throws leaves the source alone and nothing half made
            {
                if (!m[j] || !flip()) { f(); return false; }
                throw_in = 1; bool thrown = false;
                try { f(); } catch (const Boom&) { thrown = true; }
                VP_CHECK(thrown || i == j, "the copy was not made"); throw_in = 0;
                return thrown;
            };
            switch (op)
            {
                case 0: { const auto j = other(); note([&] { return fmt("p%u = p%u", i, j); }); if (!fault(j, [&] { VP_CHECK(&(a = std::as_const(p[j])) == &a, "result"); })) ma = m[j]; break; }
                case 1: { const auto j = other(); note([&] { return fmt("p%u = move(p%u)", i, j); }); a = std::move(p[j]); if (i != j) { ma = m[j]; m[j].reset(); } break; }
                case 2: note([&] { return fmt("p%u = nullptr", i); }); a = nullptr; ma.reset(); break;
                case 3: note([&] { return fmt("p%u.reset()", i); }); a.reset(); ma.reset(); break;
                case 4: { note([&] { return fmt("p%u = value", i); }); const int k = 3 + int(choose(2)); a = VP(Obj(k)); ma = k; break; }
                case 5: note([&] { return fmt("p%u = pointer to an object", i); }); a = VP(const_cast<Obj*>(&outside)); ma = 9; VP_CHECK(a.get() != &outside, "not copied"); break;
                case 6: note([&] { return fmt("p%u = null pointer", i); }); a = VP(static_cast<Obj*>(nullptr)); ma.reset(); break;
                case 7: { const auto j = other(); note([&] { return fmt("p%u = VP(p%u)", i, j); }); if (!fault(j, [&] { VP t(std::as_const(p[j])); shows(t, m[j], "copy"); if (m[j]) { VP_CHECK(t.get() != p[j].get(), "shared"); *t->v += 100; shows(p[j], m[j], "source of a changed copy"); *t->v -= 100; } a = std::move(t); VP_CHECK(!t.has_value(), "moved-from"); })) ma = m[j]; break; }
                case 8: { const auto j = other(); note([&] { return fmt("p%u = VP(move(p%u))", i, j); }); const Obj* o = p[j].get(); VP t(std::move(p[j])); VP_CHECK(t.get() == o && !p[j], "not transferred"); shows(t, m[j], "moved"); const M<int> k = m[j]; m[j].reset(); a = std::move(t); ma = k; break; }
                case 9: { const auto j = other(); if (j < i) prune(); note([&] { return fmt("swap(p%u, p%u)", i, j); }); using std::swap; swap(a, p[j]); std::swap(ma, m[j]); break; }
                case 10: { if (!ma) prune(); note([&] { return fmt("*p%u = 5", i); }); *a = Obj(5); ma = 5; break; }
                case 11: { if (!ma) prune(); note([&] { return fmt("p%u->v = 6", i); }); *a->v = 6; ma = 6; break; }
                default: { const auto j = other(); if (!m[j]) prune(); note([&] { return fmt("p%u = VP(p%u.get())", i, j); }); a = VP(p[j].get()); ma = m[j]; break; }
            }
            check();
        }
    }
    VP_CHECK(live == 0, "%d objects not destroyed", live);
}
// the pointee contains pointers
struct Tree { int v; sp::value_ptr<Tree> left, right; };
static sp::value_ptr<Tree> grow(std::uint32_t depth, int& k)
{
    if (depth == 0 || !flip()) return {};
    Tree t; t.v = k++; t.left = grow(depth - 1, k); t.right = grow(depth - 1, k);
    return sp::value_ptr<Tree>(std::move(t));
}
static std::string text(const sp::value_ptr<Tree>& t) { return t ? "(" + std::to_string(t->v) + text(t->left) + text(t->right) + ")" : "."; }
static void trees()
{
    LeakScope l;
    int k = 0; auto a = grow(3, k); auto b = flip() ? grow(2, k) : sp::value_ptr<Tree>(Tree{99, {}, {}});
    const auto ta = text(a), tb = text(b); const auto op = choose(8);
    note([&] { return ta + " " + tb + fmt(" %u", op); });
    switch (op)
    {
        case 0: { auto c = a; VP_CHECK(text(c) == ta, "copy"); if (c && c->left) { c->left->v = -1; VP_CHECK(text(a) == ta, "shared"); } b = c; VP_CHECK(text(b) == text(c), "assigned"); break; }
        case 1: { b = a; VP_CHECK(text(b) == ta && text(a) == ta, "assigned"); a.reset(); VP_CHECK(text(b) == ta, "assigned"); break; }
        case 2: { b = std::move(a); VP_CHECK(text(b) == ta && !a, "moved"); break; }
        case 3: if (!a) prune(); { const auto want = text(a->left); sp::value_ptr<Tree> t(a->left); a = t; VP_CHECK(text(a) == want, "replaced by its subtree"); break; }
        case 4: if (!a) prune(); { const auto want = text(a->right); sp::value_ptr<Tree> t(std::move(a->right)); a = std::move(t); VP_CHECK(text(a) == want, "replaced by its moved subtree"); break; }
        case 5: if (!a) prune(); { a->left = b; VP_CHECK(text(a->left) == tb && text(b) == tb, "subtree assigned"); break; }
        case 6: if (!a) prune(); { std::swap(a->left, a->right); std::swap(a->left, a->right); VP_CHECK(text(a) == ta, "swapped twice"); auto& self = a; a = self; VP_CHECK(text(a) == ta, "self-assigned"); break; }
        default: if (!a) prune(); { sp::value_ptr<Tree> whole(a); a->left = whole; VP_CHECK(text(a->left) == ta, "own copy below itself"); break; }
    }
}
// ---- cloning_ptr
struct Base
{
    int* v;
    explicit Base(int k) : v(new int(k)) { ++live; }
    Base(const Base& o) : v(new int(*o.v)) { ++live; }
    Base& operator=(const Base&) = delete;
    virtual ~Base() { delete v; v = nullptr; --live; }
    std::unique_ptr<Base> clone() const { return std::unique_ptr<Base>(do_clone()); }
    virtual int kind() const { return 0; }
protected:
    virtual Base* do_clone() const { return new Base(*this); }
};
struct Derived : Base
{
    std::string extra = "a string that is long enough for the heap";
    explicit Derived(int k) : Base(k) {}
    std::unique_ptr<Derived> clone() const { return std::unique_ptr<Derived>(static_cast<Derived*>(do_clone())); }
    int kind() const override { return 1; }
protected:
    Base* do_clone() const override { return new Derived(*this); }
};
using CB = sp::cloning_ptr<Base>;
using CD = sp::cloning_ptr<Derived>;
static_assert(sp::clonable<Base> && sp::clonable<Derived>);
static_assert(!std::is_convertible_v<CB, CD> && std::is_convertible_v<CD, CB>);
using KV = std::pair<int, int>;     // kind, value
template <class P> static void shows(const P& p, const M<KV>& m, const char* what)
{
    VP_CHECK(bool(p) == m.has_value() && (p.get() != nullptr) == m.has_value(), "%s: %s", what, m ? "null" : "not null");
    VP_CHECK((p == nullptr) == !m && (nullptr == p) == !m && (p != nullptr) == bool(m), "%s: comparison with null", what);
    VP_CHECK((p > nullptr) == bool(m) && p >= nullptr && !(p < nullptr) && (p <= nullptr) == !m, "%s: ordering with null", what);
    if (m) VP_CHECK(p->kind() == m->first && *p->v == m->second && (*p).kind() == m->first && &*p == p.get() && p.operator->() == p.get(), "%s: kind %d value %d, want %d %d", what, p->kind(), *p->v, m->first, m->second);
}
struct Clones
{
    CB b0{new Base(1)}, b1; CD d0{new Derived(2)}, d1;
    template <class F> void with(std::uint32_t i, F f) { if (i == 0) f(b0); else if (i == 1) f(b1); else if (i == 2) f(d0); else f(d1); }
};
static void clone_history(std::uint32_t depth, bool stateful)
{
    LeakScope l;
    live = 0;
    {
        Clones c; std::array<M<KV>, 4> m{KV(0, 1), M<KV>(), KV(1, 2), M<KV>()};
        auto check = [&]
        {
            int n = 0;
            for (std::uint32_t i = 0; i < 4; ++i) c.with(i, [&](auto& a)
            {
                shows(a, m[i], "pointer"); n += m[i].has_value();
                for (std::uint32_t j = 0; j < 4; ++j) c.with(j, [&](auto& b)
                {
                    const bool same = i == j || (!m[i] && !m[j]);
                    VP_CHECK((a == b) == same && (a != b) == !same, "pointers %u and %u: equality", i, j);
                    const Base* x = a.get(); const Base* y = b.get();
                    VP_CHECK((a < b) == std::less<>{}(x, y) && (a > b) == std::less<>{}(y, x) && (a <= b) == !std::less<>{}(y, x) && (a >= b) == !std::less<>{}(x, y), "pointers %u and %u: ordering", i, j);
                });
            });
            VP_CHECK(live == n, "%d live objects, want %d", live, n);
        };
        check();
        for (std::uint32_t step = 0; step < depth; ++step)
        {
            if (stateful) { Hash h; for (auto& x : m) h(x ? x->first * 100 + x->second : -1); fresh(h.h, depth - step); }
            const auto i = choose(4), op = choose(12);
            c.with(i, [&](auto& a)
            {
                using A = std::remove_reference_t<decltype(a)>;
                using T = typename A::element_type;
                auto& ma = m[i];
                auto from = [&](auto f)     // any pointer that converts to a
                {
                    const auto j = choose(4);
                    c.with(j, [&](auto& b) { if constexpr (std::is_convertible_v<std::remove_reference_t<decltype(b)>, A>) f(b, j); else prune(); });
                };
                switch (op)
                {
                    case 0: from([&](auto& b, auto j) { note([&] { return fmt("p%u = p%u", i, j); }); VP_CHECK(&(a = std::as_const(b)) == &a, "result"); ma = m[j]; }); break;
                    case 1: from([&](auto& b, auto j) { note([&] { return fmt("p%u = move(p%u)", i, j); }); const Base* o = b.get(); VP_CHECK(&(a = std::move(b)) == &a, "result"); VP_CHECK(a.get() == o, "not transferred"); if (i != j) { ma = m[j]; m[j].reset(); } }); break;
                    case 2: note([&] { return fmt("p%u = nullptr", i); }); a = nullptr; ma.reset(); break;
                    case 3: note([&] { return fmt("p%u.reset()", i); }); a.reset(); ma.reset(); break;
                    case 4: note([&] { return fmt("p%u.reset(new)", i); }); a.reset(new T(3)); ma = KV(std::is_same_v<T, Derived>, 3); break;
                    case 5: if constexpr (std::is_same_v<T, Base>) { note([&] { return fmt("p%u.reset(new derived)", i); }); a.reset(new Derived(4)); ma = KV(1, 4); break; } else prune();
                    case 6: { note([&] { return fmt("p%u.release()", i); }); const T* o = a.get(); T* r = a.release(); VP_CHECK(r == o && !a, "release"); if (ma) VP_CHECK(r->kind() == ma->first && *r->v == ma->second, "released"); delete r; ma.reset(); break; }
                    case 7: from([&](auto& b, auto j) { note([&] { return fmt("p%u = copy(p%u)", i, j); }); A t(std::as_const(b)); shows(t, m[j], "copy"); if (m[j]) { VP_CHECK(static_cast<const Base*>(t.get()) != b.get(), "shared"); *t->v += 100; shows(b, m[j], "source of a changed copy"); *t->v -= 100; } a = std::move(t); VP_CHECK(!t, "moved-from"); ma = m[j]; }); break;
                    case 8: from([&](auto& b, auto j) { note([&] { return fmt("p%u = moved(p%u)", i, j); }); const Base* o = b.get(); A t(std::move(b)); VP_CHECK(t.get() == o && !b, "not transferred"); const M<KV> k = m[j]; m[j].reset(); shows(t, k, "moved"); a = std::move(t); ma = k; }); break;
                    case 9:
                    {
                        const auto j = choose(4); if (j < i) prune(); const bool member = flip();
                        c.with(j, [&](auto& b) { if constexpr (std::is_same_v<std::remove_reference_t<decltype(b)>, A>) { note([&] { return fmt("swap(p%u, p%u)", i, j); }); if (member) a.swap(b); else { using std::swap; swap(a, b); } std::swap(ma, m[j]); } else prune(); });
                        break;
                    }
                    case 10: note([&] { return fmt("p%u = make_cloning_ptr", i); }); a = sp::make_cloning_ptr<T>(5); ma = KV(std::is_same_v<T, Derived>, 5); break;
                    default: if (!ma) prune(); note([&] { return fmt("p%u->v = 6", i); }); *(*a).v = 6; ma->second = 6; break;
                }
            });
            check();
        }
    }
    VP_CHECK(live == 0, "%d objects not destroyed", live);
}
// ---- any_allocator
struct Ledger { std::set<std::pair<const void*, std::size_t>> blocks; std::size_t count = 0; };
static Ledger ledgers[8];
template <class T> static T* take(Ledger& l, std::size_t n) { T* p = static_cast<T*>(::operator new(n * sizeof(T))); l.blocks.insert({p, n}); ++l.count; return p; }
template <class T> static void give(Ledger& l, T* p, std::size_t n) { VP_CHECK(l.blocks.erase({p, n}) == 1, "memory given back to an allocator that did not provide it, or with another size"); ::operator delete(p); }
template <class T> struct Stateful      // equal when they use the same ledger
{
    using value_type = T; int id; char pad[24] = {};
    explicit Stateful(int i) : id(i) {}
    T* allocate(std::size_t n) { return take<T>(ledgers[id], n); }
    void deallocate(T* p, std::size_t n) { give(ledgers[id], p, n); }
    friend bool operator==(const Stateful& a, const Stateful& b) { return a.id == b.id; }
};
template <class T> struct Stateless
{
    using value_type = T;
    T* allocate(std::size_t n) { return take<T>(ledgers[2], n); }
    void deallocate(T* p, std::size_t n) { give(ledgers[2], p, n); }
    friend bool operator==(const Stateless&, const Stateless&) { return true; }
};
struct Resource : std::pmr::memory_resource
{
    Ledger& l; explicit Resource(Ledger& x) : l(x) {}
    void* do_allocate(std::size_t n, std::size_t) override { return take<char>(l, n); }
    void do_deallocate(void* p, std::size_t n, std::size_t) override { give(l, static_cast<char*>(p), n); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
template <class T> static sp::any_allocator<T> given(auto a, int form)      // as an rvalue, an lvalue or a constant
{
    if (form == 0) return sp::any_allocator<T>(std::move(a));
    if (form == 1) return sp::any_allocator<T>(a);
    const auto& c = a; return sp::any_allocator<T>(c);
}
template <class T> static void allocators(std::uint32_t slots)
{
    LeakScope l;
    for (auto& x : ledgers) x = Ledger();
    {
        Resource r3(ledgers[3]), r4(ledgers[4]);
        std::vector<sp::any_allocator<T>> s; s.reserve(8); std::vector<int> key;      // what each was made from
        for (std::uint32_t i = 0; i < slots; ++i)
        {
            const auto how = choose(i ? 12u : 8u);
            if (how < 8)
            {
                const int form = how == 7 ? 0 : int(choose(3));
                note([&] { return fmt("allocator %u: kind %u, form %d", i, how, form); });
                switch (how)
                {
                    case 0: s.push_back(given<T>(std::allocator<T>(), form)); break;
                    case 1: s.push_back(given<T>(std::pmr::polymorphic_allocator<T>(&r3), form)); break;
                    case 2: s.push_back(given<T>(std::pmr::polymorphic_allocator<T>(&r4), form)); break;
                    case 3: s.push_back(given<T>(Stateful<T>(0), form)); break;
                    case 4: s.push_back(given<T>(Stateful<T>(1), form)); break;
                    case 5: s.push_back(given<T>(Stateless<T>(), form)); break;
                    case 6: s.push_back(given<T>(std::pmr::polymorphic_allocator<T>(), form)); break;
                    default: s.push_back(sp::any_allocator<T>()); break;
                }
                key.push_back(how == 7 ? 0 : int(how));
            }
            else
            {
                const auto j = choose(i);
                note([&] { return fmt("allocator %u: form %u of %u", i, how, j); });
                switch (how)
                {
                    case 8: s.push_back(sp::any_allocator<T>(std::as_const(s[j]))); break;
                    case 9: { sp::any_allocator<T> t(std::move(s[j])); s.push_back(t); break; }      // the source keeps its value: its container still uses it
                    case 10: s.push_back(s[j].select_on_container_copy_construction()); break;
                    default: { sp::any_allocator<T> t(s[j]); sp::any_allocator<T> u(std::move(t)); s.push_back(std::move(u)); VP_CHECK(t == s[j], "a moved-from allocator changed"); break; }
                }
                key.push_back(key[j]);
            }
        }
        for (std::size_t i = 0; i < s.size(); ++i)
            for (std::size_t j = 0; j < s.size(); ++j)
            {
                const bool same = key[i] == key[j];
                VP_CHECK((s[i] == s[j]) == same && (s[i] != s[j]) == !same && s[i].equal(s[j]) == same, "allocators %zu and %zu (made from %d and %d) compare %s", i, j, key[i], key[j], same ? "different" : "equal");
                if (!same) continue;
                // what one provides the other takes back
                static const int ledger[] = {-1, 3, 4, 0, 1, 2, -1};
                const int k = ledger[key[i]]; const std::size_t before = k >= 0 ? ledgers[k].count : 0;
                for (std::size_t n : {std::size_t(1), std::size_t(5)})
                {
                    T* p = s[i].allocate(n);
                    for (std::size_t e = 0; e < n; ++e) new (p + e) T(T(e));
                    VP_CHECK(p[n - 1] == T(n - 1), "memory");
                    s[j].deallocate(p, n);
                }
                if (k >= 0) VP_CHECK(ledgers[k].count == before + 2, "memory came from another allocator");
            }
        for (auto& x : ledgers) VP_CHECK(x.blocks.empty(), "memory not given back");
        // destroy in any order: an allocator does not depend on those that it was copied from
        while (!s.empty()) { s.pop_back(); if (!s.empty()) { T* p = s[0].allocate(2); s[0].deallocate(p, 2); } }
    }
    for (auto& x : ledgers) x = Ledger();
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        add("value_ptr histories", [] { value_history(tier(3, 4), false); });
        add("value_ptr long histories", [] { value_history(tier(6, 10), true); }, {.stateful = true});
        add("value_ptr trees", trees);
        add("cloning_ptr histories", [] { clone_history(tier(3, 4), false); });
        add("cloning_ptr long histories", [] { clone_history(tier(5, 8), true); }, {.stateful = true});
        add("any_allocator int", [] { allocators<int>(tier(3, 4)); });
        add("any_allocator char", [] { allocators<char>(tier(2, 3)); });
        add("any_allocator double", [] { allocators<double>(tier(2, 3)); });
    });
}
