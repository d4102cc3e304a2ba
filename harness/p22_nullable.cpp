// P22: nullable obeys optional-like algebra and a consistent ordering
#include "common/vp.hpp"
#include <sparrow/sparrow.hpp>
#include <algorithm>
#include <cmath>
#include <optional>
#include <random>
using namespace vp;
namespace sp = sparrow;

struct Obj          // lifetime errors and moves are observable
{
    int* p;
    Obj(int v = 0) : p(new int(v)) {}
    Obj(const Obj& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Obj(Obj&& o) noexcept : p(o.p) { o.p = nullptr; }
    Obj& operator=(const Obj& o) { if (this != &o) { int* n = o.p ? new int(*o.p) : nullptr; delete p; p = n; } return *this; }
    Obj& operator=(Obj&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Obj() { delete p; p = nullptr; }
    int v() const { return p ? *p : -1; }
    friend bool operator==(const Obj& a, const Obj& b) { return a.v() == b.v(); }
    friend std::strong_ordering operator<=>(const Obj& a, const Obj& b) { return a.v() <=> b.v(); }
};
template <class T> T val(int k)
{
    if constexpr (std::is_same_v<T, bool>) return k & 1;
    else if constexpr (std::is_same_v<T, std::string>) return k ? std::string(std::size_t(k) * 20, char('a' + k)) : std::string();
    else if constexpr (std::is_same_v<T, std::string_view>) return k ? std::string_view("view", std::size_t(k)) : std::string_view();
    else if constexpr (std::is_floating_point_v<T>) return k == 2 ? std::numeric_limits<T>::quiet_NaN() : T(k) - T(0.5);
    else return T(k);
}
template <class T> bool same(const T& a, const T& b)
{
    if constexpr (std::is_floating_point_v<T>) return a == b || (std::isnan(a) && std::isnan(b)); else return a == b;
}
template <class T> using M = std::optional<T>;
template <class T> inline constexpr bool is_value = false;
template <class T> inline constexpr bool is_value<sp::nullable<T, bool>> = !std::is_reference_v<T>;

using bits_t = sp::dynamic_bitset<std::uint8_t>;
using bit_ref = bits_t::reference;

template <class T> struct World
{
    T sv[2], bv[2], hv;
    bool sf[2]{};
    bits_t bits{2, false};
    M<T> m[9];
    sp::nullable<T> x, y;
    sp::nullable<T&, bool&> r0{sv[0], sf[0]}, r1{sv[1], sf[1]};
    sp::nullable<T&, bit_ref> p0{bv[0], bits[0]}, p1{bv[1], bits[1]};
    sp::nullable<T&, bool> h{hv, false};                            // refers to a value, has its own flag
    sp::nullable<const T&, const bool&> c0{sv[0], sf[0]};           // constant references to what r0 and p1 refer to
    sp::nullable<const T&, bit_ref> c1{bv[1], bits[1]};
    static constexpr std::size_t n = 9, mutable_ = 7;
    template <class F> void with(std::size_t i, F f)
    {
        switch (i) { case 0: f(x); break; case 1: f(y); break; case 2: f(r0); break; case 3: f(r1); break; case 4: f(p0); break; case 5: f(p1); break; case 6: f(h); break; case 7: f(c0); break; default: f(c1); }
    }
    template <class F> void dest(std::size_t i, F f)
    {
        switch (i) { case 0: f(x); break; case 1: f(y); break; case 2: f(r0); break; case 3: f(r1); break; case 4: f(p0); break; case 5: f(p1); break; default: f(h); }
    }
    void sync() { m[7] = m[2]; m[8] = m[5]; }
};
static const char* const names[] = {"x", "y", "r0", "r1", "p0", "p1", "h", "c0", "c1"};

template <class N, class T> static bool throws(N&& n, const M<T>& m)
{
    try { auto&& v = std::forward<N>(n).value(); return !(m.has_value() && same<T>(v, *m)); }
    catch (const sp::bad_nullable_access& e) { VP_CHECK(std::string(e.what()).size() > 0, "message"); return !m.has_value(); }
}
template <class N, class T> static void shows(N& n, const M<T>& m, const char* what)
{
    const N& c = n;
    VP_CHECK(c.has_value() == m.has_value() && bool(c) == m.has_value() && bool(c.null_flag()) == m.has_value() && bool(n.null_flag()) == m.has_value(), "%s: %s", what, m ? "null" : "not null");
    VP_CHECK((c == sp::nullval) == !m && (sp::nullval == c) == !m && (c != sp::nullval) == bool(m), "%s: comparison with nullval", what);
    VP_CHECK((c > sp::nullval) == bool(m) && !(c < sp::nullval) && c >= sp::nullval && (c <= sp::nullval) == !m && ((c <=> sp::nullval) == 0) == !m, "%s: ordering with nullval", what);
    if (m)
    {
        VP_CHECK(same<T>(c.get(), *m) && same<T>(n.get(), *m), "%s: get()", what);
        VP_CHECK(same<T>(std::move(c).get(), *m), "%s: get() of a constant rvalue", what);
    }
    // value() throws exactly when null
    VP_CHECK(!throws<N&>(n, m) == bool(m) || !m, "%s", what);
    if (m) VP_CHECK(!throws<N&>(n, m) && !throws<const N&>(c, m) && !throws<const N&&>(std::move(c), m) && !throws<N&&>(std::move(n), m), "%s: value()", what);
    else VP_CHECK(throws<N&>(n, m) && throws<const N&>(c, m) && throws<const N&&>(std::move(c), m) && throws<N&&>(std::move(n), m), "%s: value() of null", what);
    const T other = val<T>(1);
    VP_CHECK(same<T>(c.value_or(other), m.value_or(other)) && same<T>(c.value_or(val<T>(0)), m.value_or(val<T>(0))), "%s: value_or()", what);
    sp::nullable<T> copy(c);
    VP_CHECK(copy.has_value() == bool(m) && (!m || same<T>(copy.get(), *m)), "%s: copy", what);
    VP_CHECK(same<T>(std::move(copy).value_or(other), m.value_or(other)), "%s: value_or() of an rvalue", what);
}
template <class A, class B, class MA, class MB> static void compares(const A& a, const B& b, const MA& ma, const MB& mb, const char* what)
{
    const bool eq = ma && mb ? *ma == *mb : bool(ma) == bool(mb);
    const bool lt = ma && mb ? *ma < *mb : !ma && mb;
    const bool gt = ma && mb ? *ma > *mb : ma && !mb;
    VP_CHECK((a == b) == eq && (a != b) == !eq, "%s: equality", what);
    VP_CHECK((a < b) == lt && (a > b) == gt && (a <= b) == (lt || eq) && (a >= b) == (gt || eq), "%s: ordering", what);
    const auto o = a <=> b;
    VP_CHECK((o == 0) == eq && (o < 0) == lt && (o > 0) == gt, "%s: <=>", what);
}
template <class T> static void check(World<T>& w)
{
    for (std::size_t i = 0; i < w.n; ++i)
        w.with(i, [&](auto& a)
        {
            shows(a, w.m[i], names[i]);
            for (std::size_t j = 0; j < w.n; ++j) w.with(j, [&](auto& b) { compares(a, b, w.m[i], w.m[j], names[i]); });
            for (int k = 0; k < 3; ++k)
            {
                const T v = val<T>(k);
                compares(a, v, w.m[i], M<T>(v), names[i]); compares(v, a, M<T>(v), w.m[i], names[i]);
            }
        });
    // what the references refer to
    for (std::size_t i = 0; i < 2; ++i)
    {
        VP_CHECK(w.sf[i] == bool(w.m[2 + i]) && (!w.m[2 + i] || same(w.sv[i], *w.m[2 + i])), "storage of r%zu", i);
        VP_CHECK(bool(w.bits[i]) == bool(w.m[4 + i]) && (!w.m[4 + i] || same(w.bv[i], *w.m[4 + i])), "storage of p%zu", i);
    }
    VP_CHECK(!w.m[6] || same(w.hv, *w.m[6]), "storage of h");
    VP_CHECK(w.bits.null_count() == std::size_t(!w.m[4]) + std::size_t(!w.m[5]), "null count of the flags");
}
template <class T> static void history(std::uint32_t depth)
{
    LeakScope l;
    World<T> w;
    // start: different values and nulls
    const int start = int(choose(3));
    for (std::size_t i = 0; i < w.mutable_; ++i)
        w.dest(i, [&](auto& a) { const int k = int(i) % 3; a = val<T>(k); w.m[i] = val<T>(k); if ((start == 1 && i % 2) || (start == 2 && i % 3 == 0)) { a = sp::nullval; w.m[i].reset(); } });
    w.sync();
    note([&] { return fmt("start %d:", start); });
    const std::uint32_t steps = choose(depth + 1);      // histories of every length; the state at their end is judged
    for (std::uint32_t step = 0; step < steps; ++step)
    {
        const std::size_t d = choose(std::uint32_t(w.mutable_));
        const std::uint32_t op = choose(13);
        w.dest(d, [&](auto& a)
        {
            using A = std::remove_reference_t<decltype(a)>;
            auto& ma = w.m[d];
            auto moved = [&](std::size_t s) { if (s < 2) w.dest(s, [&](auto& b) { VP_CHECK(b.has_value() == bool(w.m[s]), "flag of a moved value"); if (w.m[s]) { b = val<T>(1); w.m[s] = val<T>(1); } }); };
            if (op == 0 || op == 1 || op == 2 || op == 3 || op == 9 || op == 10)
            {
                const std::size_t s = choose(std::uint32_t(op == 2 || op == 3 || op == 1 || op == 10 ? w.mutable_ : w.n));
                w.with(s, [&](auto& b)
                {
                    using B = std::remove_reference_t<decltype(b)>;
                    switch (op)
                    {
                        case 0: note([&] { return fmt("%s = %s", names[d], names[s]); }); a = std::as_const(b); ma = w.m[s]; break;
                        case 1:
                            if (s == d) prune();
                            note([&] { return fmt("%s = move(%s)", names[d], names[s]); }); a = std::move(b); ma = w.m[s]; moved(s); break;
                        case 2: case 3:
                            if constexpr (std::is_same_v<A, B>)
                            {
                                if (s < d) prune();
                                note([&] { return fmt("%s(%s, %s)", op == 2 ? "a.swap" : "swap", names[d], names[s]); });
                                if (op == 2) a.swap(b); else { using std::swap; swap(a, b); }
                                std::swap(ma, w.m[s]); break;
                            }
                            else prune();
                        case 9:
                        {
                            note([&] { return fmt("%s = nullable(%s)", names[d], names[s]); });
                            sp::nullable<T> t(std::as_const(b)); shows(t, w.m[s], "constructed"); a = t; ma = w.m[s]; break;
                        }
                        default:
                        {
                            note([&] { return fmt("%s = nullable(move(%s))", names[d], names[s]); });
                            sp::nullable<T> t(std::move(b)); shows(t, w.m[s], "constructed"); const M<T> c = w.m[s]; moved(s); a = std::move(t); ma = c; break;
                        }
                    }
                });
            }
            else switch (op)
            {
                case 4: { const int k = int(choose(3)); note([&] { return fmt("%s = rvalue %d", names[d], k); }); a = val<T>(k); ma = val<T>(k); break; }
                case 5: { const int k = int(choose(2)); const T v = val<T>(k); note([&] { return fmt("%s = lvalue %d", names[d], k); }); a = v; ma = v; break; }
                case 6: note([&] { return fmt("%s = nullval", names[d]); }); a = sp::nullval; ma.reset(); break;
                case 7: note([&] { return fmt("%s.reset()", names[d]); }); a.reset(); ma.reset(); break;
                case 8: if constexpr (is_value<A>) { note([&] { return fmt("%s = {}", names[d]); }); a = {}; ma.reset(); break; } else prune();
                case 11: { if (!ma) prune(); const int k = int(choose(2)); note([&] { return fmt("%s.get() = %d", names[d], k); }); a.get() = val<T>(k); ma = val<T>(k); break; }
                default: note([&] { return fmt("%s.null_flag() = false", names[d]); }); a.null_flag() = false; ma.reset(); break;
            }
        });
        w.sync();
    }
    check(w);
}
// every constructor
template <class T> static void constructors()
{
    LeakScope l;
    const int k = int(choose(3)); const bool f = flip();
    T v = val<T>(k); bool fl = f;
    const M<T> m = f ? M<T>(v) : M<T>();
    { sp::nullable<T> a; shows(a, M<T>(), "default"); sp::nullable<T> b(sp::nullval); shows(b, M<T>(), "nullval"); sp::nullable<T> c = sp::nullval; shows(c, M<T>(), "= nullval"); compares(a, b, M<T>(), M<T>(), "nulls"); }
    { sp::nullable<T> a(v); shows(a, M<T>(v), "lvalue"); sp::nullable<T> b(val<T>(k)); shows(b, M<T>(v), "rvalue"); sp::nullable<T> c = v; shows(c, M<T>(v), "= value"); }
    { sp::nullable<T> a(v, fl); shows(a, m, "lvalues"); sp::nullable<T> b(val<T>(k), bool(f)); shows(b, m, "rvalues"); sp::nullable<T> c(val<T>(k), fl); shows(c, m, "rvalue, lvalue"); sp::nullable<T> d(v, bool(f)); shows(d, m, "lvalue, rvalue"); }
    { sp::nullable<T&> a(v, bool(f)); shows(a, m, "reference"); sp::nullable<T&, bool&> b(v, fl); shows(b, m, "references"); sp::nullable<T, bool&> c(val<T>(k), fl); shows(c, m, "reference to the flag"); fl = !fl; VP_CHECK(b.has_value() == !f && c.has_value() == !f && a.has_value() == f, "referred flag"); fl = f; }
    { auto a = sp::make_nullable<T>(val<T>(k), bool(f)); shows(a, m, "make_nullable"); auto b = sp::make_nullable<T&>(v, bool(f)); shows(b, m, "make_nullable reference"); auto c = sp::make_nullable(T(v)); shows(c, M<T>(v), "make_nullable value"); }
    {
        sp::nullable<T&, bool&> r(v, fl);
        sp::nullable<T&, bool&> s(r); shows(s, m, "copied reference");
        VP_CHECK(&s.get() == &v && &s.null_flag() == &fl, "a copied reference refers to something else");
        sp::nullable<const T&, const bool&> c(r); shows(c, m, "reference to constant"); VP_CHECK(&c.get() == &v && &c.null_flag() == &fl, "a reference to constant refers to something else");
        sp::nullable<T> a(r); shows(a, m, "value of a reference"); sp::nullable<T> b(c); shows(b, m, "value of a reference to constant"); sp::nullable<T> e(std::move(r)); shows(e, m, "value of a moved reference"); VP_CHECK(same(v, val<T>(k)) && fl == f, "the value moved from a reference");
        a = sp::nullval; b = val<T>(0); VP_CHECK(same(v, val<T>(k)) && fl == f, "a copy is not independent");
        if constexpr (!std::is_same_v<T, bool>) { sp::nullable<T> z = c; shows(z, m, "implicit"); }
    }
}
// conversions between nullables of different types
template <class To, class From> static void convert(const From& fv, const To& tv)
{
    const bool f = flip();
    const int how = int(choose(6));
    note([&] { return fmt("%s, form %d", f ? "value" : "null", how); });
    From v = fv; bool fl = f;
    sp::nullable<From> s{From(fv), bool(f)};
    sp::nullable<const From&, const bool&> r(v, fl);
    const M<To> m = f ? M<To>(tv) : M<To>();
    switch (how)
    {
        case 0: { sp::nullable<To> t(s); shows(t, m, "converted"); break; }
        case 1: { sp::nullable<To> t(std::move(s)); shows(t, m, "converted rvalue"); break; }
        case 2: { sp::nullable<To> t(r); shows(t, m, "converted reference"); break; }
        case 3: { sp::nullable<To> t; t = std::as_const(s); shows(t, m, "assigned"); break; }
        case 4: { sp::nullable<To> t(tv); t = std::move(s); shows(t, m, "assigned rvalue"); break; }
        default: { sp::nullable<To> t(tv); t = r; shows(t, m, "assigned reference"); To d{}; bool df = !f; sp::nullable<To&, bool&> q(d, df); q = r; shows(q, m, "assigned through a reference"); VP_CHECK(df == f && (!f || same(d, tv)), "not written"); }
    }
}
static void conversions()
{
    LeakScope l;
    switch (choose(9))
    {
        case 0: convert<double, int>(3, 3.0); break;
        case 1: convert<std::int64_t, std::int32_t>(-7, -7); break;
        case 2: convert<std::string, const char*>("abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyz"); break;
        case 3: convert<std::string_view, std::string>("text", "text"); break;
        case 4: convert<bool, int>(0, false); break;
        case 5: convert<bool, int>(2, true); break;
        case 6: convert<int, bool>(true, 1); break;
        case 7: convert<float, double>(0.5, 0.5f); break;
        default: convert<Obj, int>(4, Obj(4)); break;
    }
}
// nullable_variant
static void variants()
{
    LeakScope l;
    using I = sp::nullable<int>; using S = sp::nullable<std::string>; using D = sp::nullable<const double&, const bool&>;
    using NV = sp::nullable_variant<I, S>;
    auto make = [](std::uint32_t k) { switch (k) { case 0: return NV(I(3)); case 1: return NV(I()); case 2: return NV(S(std::string(30, 's'))); case 3: return NV(S(sp::nullval)); case 4: return NV(); default: return NV(S(std::string("hid"), false)); } };
    const auto a = choose(6), b = choose(6); const int how = int(choose(6));
    auto is = [](const NV& v, std::uint32_t k, const char* what)
    {
        const bool has = k == 0 || k == 2;
        VP_CHECK(v.has_value() == has && bool(v) == has, "%s: variant %u is %s", what, k, v.has_value() ? "not null" : "null");
        VP_CHECK(v.index() == (k == 0 || k == 1 || k == 4 ? 0u : 1u), "%s: alternative", what);
        std::visit([&](const auto& x) { VP_CHECK(x.has_value() == has, "%s: alternative", what); if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, I>) VP_CHECK(!has || x.get() == 3, "%s", what); else VP_CHECK(!has || x.get() == std::string(30, 's'), "%s", what); }, v);
    };
    NV x = make(a), y = make(b);
    is(x, a, "made"); is(y, b, "made");
    note([&] { return fmt("variants %u and %u, form %d", a, b, how); });
    switch (how)
    {
        case 0: x = std::as_const(y); is(x, b, "assigned"); is(y, b, "source"); break;
        case 1: x = std::move(y); is(x, b, "moved"); break;
        case 2: { NV z(x); is(z, a, "copied"); is(x, a, "source"); break; }
        case 3: { NV z(std::move(x)); is(z, a, "moved"); break; }
        case 4: { std::swap(x, y); is(x, b, "swapped"); is(y, a, "swapped"); break; }
        default: { NV& z = x; x = z; is(x, a, "assigned to itself"); std::visit([](auto& n) { n.reset(); }, x); VP_CHECK(!x.has_value() && !x, "reset alternative"); break; }
    }
    double d = 1.5; bool f = flip();
    sp::nullable_variant<I, D> r(D(d, f)); VP_CHECK(r.has_value() == f && bool(r) == f, "variant of references");
    f = !f; VP_CHECK(r.has_value() == f, "variant of references");
}
// algorithms on the nullables of an array
template <class T> static void algorithms()
{
    LeakScope l;
    const std::uint32_t n = choose(tier(5, 7));
    std::vector<sp::nullable<T>> v; std::vector<M<T>> m;
    for (std::uint32_t i = 0; i < n; ++i) { const auto k = choose(3); if (k == 2) { v.push_back(sp::nullable<T>(val<T>(int(i) % 2), false)); m.push_back(M<T>()); } else { v.push_back(sp::nullable<T>(val<T>(int(k)))); m.push_back(val<T>(int(k))); } }
    sp::primitive_array<T> a(v);
    const int how = int(choose(7));
    const std::uint32_t at = n ? choose(n) : 0;
    note([&] { return fmt("%u elements, algorithm %d at %u", n, how, at); });
    const auto mid = std::ptrdiff_t(at);
    switch (how)
    {
        case 0: std::sort(v.begin(), v.end()); a = sp::primitive_array<T>(v); std::sort(m.begin(), m.end()); break;
        case 1:     // insertion sort by assignments through the references
            for (std::uint32_t i = 1; i < n; ++i)
            {
                sp::nullable<T> t(a[i]); std::uint32_t j = i;
                for (; j > 0 && t < a[j - 1]; --j) a[j] = a[j - 1];
                a[j] = t;
            }
            std::sort(m.begin(), m.end()); break;
        case 2: for (std::uint32_t i = 0; i < n / 2; ++i) { auto x = a[i]; auto y = a[n - 1 - i]; x.swap(y); } std::reverse(m.begin(), m.end()); break;
        case 3:     // bubble sort by swaps, in the other direction
            for (std::uint32_t i = 0; i < n; ++i) for (std::uint32_t j = 0; j + 1 < n; ++j) { auto x = a[j]; auto y = a[j + 1]; if (x < y) swap(x, y); }
            std::sort(m.begin(), m.end(), std::greater<>{}); break;
        case 4: if (n) { auto x = a[0]; auto y = a[at]; using std::swap; swap(x, y); std::swap(m[0], m[at]); } break;
        case 5: std::stable_sort(v.begin(), v.end()); a = sp::primitive_array<T>(v); std::stable_sort(m.begin(), m.end()); break;
        default: if (2 * at > n) prune(); if (n) { std::swap_ranges(v.begin(), v.begin() + mid, v.end() - mid); a = sp::primitive_array<T>(v); std::swap_ranges(m.begin(), m.begin() + mid, m.end() - mid); } break;
    }
    VP_CHECK(a.size() == n, "size");
    for (std::uint32_t i = 0; i < n; ++i)
    {
        auto e = std::as_const(a)[i];
        VP_CHECK(e.has_value() == m[i].has_value() && (!m[i] || e.get() == *m[i]), "element %u", i);
        sp::nullable<T> c(a[i]), d(e);
        VP_CHECK(c == d && c == e && c.has_value() == m[i].has_value(), "value of element %u", i);
    }
    VP_CHECK(std::size_t(std::count_if(a.cbegin(), a.cend(), [](const auto& e) { return !e.has_value(); })) == std::size_t(std::count(m.begin(), m.end(), M<T>())), "nulls");
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
#define T_(X, d, e) add("histories " #X, [] { history<X>(tier(d, e)); }, {.shard_depth = 4}); add("constructors " #X, constructors<X>);
#if PART == 0
        T_(int, 2, 3)
#elif PART == 1
        T_(double, 2, 3)
#elif PART == 2
        T_(bool, 2, 3)
#elif PART == 3
        T_(std::string, 2, 3)
#elif PART == 4
        T_(Obj, 2, 3)
#else
        add("conversions", conversions);
        add("variants", variants);
        add("algorithms int", algorithms<int>); add("algorithms bool", algorithms<bool>); add("algorithms i64", algorithms<std::int64_t>);
#endif
    });
}
