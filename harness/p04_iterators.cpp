// P04: every sparrow iterator obeys the random-access iterator laws
#include "deep.hpp"
#include <sparrow/buffer/buffer_adaptor.hpp>
#include <sparrow/utils/repeat_container.hpp>
#include <sparrow/record_batch.hpp>
using namespace vp;
using namespace zu;

// text of what an iterator refers to; canonical when it ranges over the values of a layout
static bool canonical = false;
template <class R> static std::string txt(const R& r)
{
    if constexpr (std::is_same_v<R, std::string>) return canonical ? sc::canon_value(r) : r;
    else if constexpr (std::is_same_v<R, sp::float16_t>) return sc::canon_value(r);
    else if constexpr (std::is_arithmetic_v<R>) return canonical ? sc::canon_value(r) : std::to_string(+r);
    else return sc::canon(r);
}
template <class It> static std::string cell(const It& it)
{
    using V = std::remove_cvref_t<decltype(*it)>;
    if constexpr (std::is_same_v<typename std::iterator_traits<It>::value_type, bool> && !std::is_same_v<V, sp::nullable<bool>>) return canonical ? ar::prim<bool>(bool(*it)) : bool(*it) ? "1" : "0";
    else { const auto& r = *it; return txt<V>(r); }
}
template <class It> inline constexpr bool bidi = requires(It i) { --i; };
template <class It> inline constexpr bool rand_ = requires(It i, std::ptrdiff_t n) { i + n; i - i; i += n; i -= n; i[n]; i < i; };

// positions compared pairwise
static std::vector<std::size_t> points(std::size_t n) { return cuts(n); }

template <class It> static void laws(const It first, const It last, const ar::Strs& want, const char* what)
{
    const std::size_t n = want.size();
    // forward
    {
        ar::Strs r;
        It it = first;
        std::size_t i = 0;
        for (; it != last; ++i)
        {
            VP_CHECK(i < n, "%s: more than %zu increments from begin to end", what, n);
            VP_CHECK(cell(it) == want[i], "%s: element %zu is %s, expected %s", what, i, cell(it).c_str(), want[i].c_str());
            It before = it;
            if (i % 2) { It ret = it++; VP_CHECK(ret == before && !(ret != before), "%s: it++ at %zu", what, i); }
            else { It& ret = ++it; VP_CHECK(&ret == &it, "%s: ++it returns another object", what); }
            VP_CHECK(!(before == it) && before != it, "%s: ++ did not move at %zu", what, i);
            VP_CHECK(cell(before) == want[i], "%s: a copy moved with its source at %zu", what, i);
        }
        VP_CHECK(i == n, "%s: %zu increments from begin to end, expected %zu", what, i, n);
        VP_CHECK(it == last, "%s: end", what);
    }
    std::vector<It> at;         // by increments only
    { It it = first; for (std::size_t i = 0; i <= n; ++i) { at.push_back(it); if (i < n) ++it; } }
    for (std::size_t i = 0; i < n; ++i)
    {
        It c(at[i]); It d(std::move(c)); It e = first; e = d;
        VP_CHECK(e == at[i] && cell(e) == want[i], "%s: copied iterator at %zu", what, i);
        using std::swap;
        It f = last; swap(e, f);
        VP_CHECK(f == at[i] && e == last && cell(f) == want[i], "%s: swapped iterators", what);
    }
    if constexpr (bidi<It>)
    {
        It it = last;
        for (std::size_t i = n; i-- > 0;)
        {
            It before = it;
            if (i % 2) { It ret = it--; VP_CHECK(ret == before, "%s: it-- at %zu", what, i + 1); }
            else { It& ret = --it; VP_CHECK(&ret == &it, "%s: --it returns another object", what); }
            VP_CHECK(it == at[i], "%s: -- from %zu does not undo ++", what, i + 1);
            VP_CHECK(cell(it) == want[i], "%s: element %zu backwards is %s, expected %s", what, i, cell(it).c_str(), want[i].c_str());
            It again = it; ++again; VP_CHECK(again == before, "%s: ++ does not undo -- at %zu", what, i);
        }
        VP_CHECK(it == first, "%s: begin from the end", what);
        std::reverse_iterator<It> rb(last), re(first);
        std::size_t i = n;
        for (; rb != re; ++rb) { VP_CHECK(i > 0, "%s: too many elements in reverse", what); --i; const auto b = std::prev(rb.base()); VP_CHECK(cell(b) == want[i], "%s: reverse element %zu", what, i); }
        VP_CHECK(i == 0, "%s: %zu elements missing in reverse", what, i);
    }
    if constexpr (rand_<It>)
    {
        const auto ps = points(n);
        VP_CHECK(last - first == std::ptrdiff_t(n) && first - last == -std::ptrdiff_t(n), "%s: distance", what);
        if constexpr (std::random_access_iterator<It>) VP_CHECK(std::distance(first, last) == std::ptrdiff_t(n), "%s: std::distance", what);
        for (std::size_t i : ps)
        {
            for (std::size_t j : ps)
            {
                const std::ptrdiff_t d = std::ptrdiff_t(j) - std::ptrdiff_t(i);
                const It &a = at[i], &b = at[j];
                VP_CHECK(b - a == d, "%s: distance from %zu to %zu is %ld", what, i, j, long(b - a));
                VP_CHECK(a + d == b, "%s: %zu + %ld", what, i, long(d));
                VP_CHECK(b - d == a, "%s: %zu - %ld", what, j, long(d));
                if constexpr (requires { d + a; }) VP_CHECK(d + a == b, "%s: %ld + %zu", what, long(d), i);
                It c = a; It& r = (c += d); VP_CHECK(&r == &c && c == b, "%s: %zu += %ld", what, i, long(d));
                It e = b; It& q = (e -= d); VP_CHECK(&q == &e && e == a, "%s: %zu -= %ld", what, j, long(d));
                if (j < n)
                {
                    VP_CHECK(cell(c) == want[j], "%s: *(%zu + %ld) is %s, expected %s", what, i, long(d), cell(c).c_str(), want[j].c_str());
                    struct Sub { const It& it; std::ptrdiff_t n; decltype(auto) operator*() const { return it[n]; } };
                    const auto& v = *Sub{a, d};
                    using V = std::remove_cvref_t<decltype(*first)>;
                    std::string got;
                    if constexpr (std::is_same_v<typename std::iterator_traits<It>::value_type, bool> && !std::is_same_v<V, sp::nullable<bool>>) got = canonical ? ar::prim<bool>(bool(v)) : bool(v) ? "1" : "0";
                    else got = txt<V>(v);
                    VP_CHECK(got == want[j], "%s: %zu[%ld] is %s, expected %s", what, i, long(d), got.c_str(), want[j].c_str());
                }
                VP_CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "%s: comparison of positions %zu and %zu", what, i, j);
                if constexpr (requires { a <=> b; }) { const auto o = a <=> b; VP_CHECK((o < 0) == (i < j) && (o == 0) == (i == j) && (o > 0) == (i > j), "%s: <=> of positions %zu and %zu", what, i, j); }
            }
        }
    }
}
template <class C> static ar::Strs cells(const C& first, const C& last, std::size_t n)
{
    ar::Strs r; for (C it = first; it != last && r.size() <= n; ++it) r.push_back(cell(it));
    return r;
}
// every iterator of a typed layout
template <class T> static void layout(const T& t, const ar::Strs& want, const char* what)
{
    laws(t.begin(), t.end(), want, what);
    laws(t.cbegin(), t.cend(), want, what);
    VP_CHECK(t.begin() == t.cbegin() && t.end() == t.cend(), "%s: begin and cbegin differ", what);
    if constexpr (requires { t.rbegin(); t.crbegin(); })
    {
        ar::Strs rev(want.rbegin(), want.rend());
        laws(t.rbegin(), t.rend(), rev, "reverse"); laws(t.crbegin(), t.crend(), rev, "const reverse");
    }
    const std::size_t n = want.size();
    if constexpr (requires { t.bitmap(); })
    {
        ar::Strs bits; for (auto& w : want) bits.push_back(w == ar::null_() ? "0" : "1");
        if constexpr (!std::is_same_v<T, sp::null_array>) { auto b = t.bitmap(); laws(b.begin(), b.end(), bits, "bitmap"); }
    }
    if constexpr (requires { t.values(); } && !std::is_same_v<T, sp::null_array>)
    {
        auto v = t.values();
        canonical = true;
        ar::Strs r = cells(v.begin(), v.end(), n);
        VP_CHECK(r.size() == n, "%s: %zu values", what, r.size());
        for (std::size_t i = 0; i < n; ++i) if (want[i] != ar::null_()) VP_CHECK(r[i] == want[i], "%s: value %zu is %s, expected %s", what, i, r[i].c_str(), want[i].c_str());
        laws(v.begin(), v.end(), r, "values");
        canonical = false;
    }
    // iterators of this array that are not const
    T& m = const_cast<T&>(t);
    if constexpr (requires { m.begin(); }) { laws(m.begin(), m.end(), want, "mutable"); }
    for (std::size_t i = 0; i < n; ++i) VP_CHECK(sc::canon(t[i]) == want[i], "%s: operator[] at %zu", what, i);
    // characters of strings
    if constexpr (std::is_same_v<T, sp::string_array>)
        for (std::size_t i = 0; i < n && i < 3; ++i)
        {
            if (!t[i].has_value()) continue;
            auto e = std::as_const(t)[i]; auto s = e.get();
            std::string text(s.begin(), s.end());
            ar::Strs c; for (char x : text) c.push_back(std::to_string(+x));
            VP_CHECK(ar::text(text) == want[i] && s.size() == text.size(), "characters of element %zu", i);
            laws(s.begin(), s.end(), c, "characters");
            auto f = m[i]; auto& g = f.get();
            laws(g.begin(), g.end(), c, "mutable characters"); laws(g.cbegin(), g.cend(), c, "const characters");
        }
}
// the layouts are shared out over four binaries, for the time it takes to compile them
#ifndef PART
#define PART 0
#endif
template <class T> static constexpr int part_of()
{
    if constexpr (sp::is_primitive_array_v<T>) return sizeof(typename T::inner_value_type) <= 2 ? 0 : 1;
    else if constexpr (sp::detail::is_dictionary_encoded_array<T>::get()) return 2;
    else return 3;
}
static void arrays(std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    Source s;
    const bool foreign = flip();
    if (!foreign) { auto k = choose(std::uint32_t(zoo::kinds().size())); Mask m = shape(big, small); note([&] { return zoo::kinds()[k].name + " valid " + show(m); }); s.built(k, m, 0); }
    else
    {
        auto k = choose(std::uint32_t(zoo::fkinds().size())); Mask m = shape(big, small); auto o = few_fopt(zoo::fkinds()[k].has_validity, m);
        s.t.writable = true;
        note([&] { return "foreign " + zoo::fkinds()[k].name + " valid " + show(m) + " " + show(o); }); s.import(k, m, o, 0);
    }
    const std::size_t n = s.want.size();
    sp::array* a = &*s.a;
    std::optional<sp::array> w;
    ar::Strs want = s.want;
    const int form = n ? int(choose(4)) : 0;
    if (form)
    {
        const std::size_t b = n / 3 + (n == 1 ? 0 : 1) - (n == 2), e = form == 2 ? n : n - (n > 2);
        note([&] { return fmt("form %d, window [%zu, %zu)", form, b, e); });
        if (form == 1) w.emplace(a->slice_view(b, e)); else if (form == 2) w.emplace(a->slice(b, e)); else w.emplace(*a);
        if (form != 3) want = sub(want, b, e);
        a = &*w;
    }
    // an array without validity buffer that sparrow does not own cannot be given one
    if (s.node.length && form != 3 && form != 2 && !s.node.buffers.empty() && !s.node.buffers[0]) { shows(*a, want, "array"); cover("no validity"); return; }
    a->visit([&](const auto& t)
    {
        using T = std::remove_cvref_t<decltype(t)>;
        if constexpr (part_of<T>() == PART) layout(t, want, "layout"); else prune();    // another part's
    });
}
// iterators of the elements that are lists (through their flat array) and of string views
static void view_arrays()
{
    LeakScope l;
    Mask m = shape({9}, tier(3, 5));
    std::vector<std::string> v; ar::Strs want;
    for (std::size_t i = 0; i < m.size(); ++i) { v.push_back(std::string(i % 4 == 2 ? 20 : i * 4 % 15, char('a' + i % 26))); want.push_back(m[i] ? ar::text(v.back()) : ar::null_()); }
    std::vector<std::string_view> in(v.begin(), v.end());
    note([&] { return "string views valid " + show(m); });
    sp::string_view_array a(in, m);
    layout(a, want, "string views");
    const std::size_t n = m.size();
    if (n) { sp::string_view_array b(sp::detail::array_access::get_arrow_proxy(a).slice_view(1, n)); layout(b, sub(want, 1, n), "slice of string views"); }
}
// ---- buffers and their views
template <class T> static void buffers_()
{
    LeakScope l;
    const std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, 3, 7, 8, 9, 65});
    std::vector<T> v; ar::Strs want; for (std::size_t i = 0; i < n; ++i) { v.push_back(T(i * 3 % 100)); want.push_back(std::to_string(+v.back())); }
    ar::Strs rev(want.rbegin(), want.rend());
    note([&] { return fmt("%zu values of %zu bytes", n, sizeof(T)); });
    auto all_of = [&](auto& b, const char* what)
    {
        laws(b.begin(), b.end(), want, what); laws(b.cbegin(), b.cend(), want, what);
        laws(std::as_const(b).begin(), std::as_const(b).end(), want, what);
        if constexpr (requires { b.rbegin(); }) { laws(b.rbegin(), b.rend(), rev, what); laws(b.crbegin(), b.crend(), rev, what); laws(std::as_const(b).rbegin(), std::as_const(b).rend(), rev, what); }
        for (std::size_t i = 0; i < n; ++i) VP_CHECK(std::as_const(b)[i] == v[i], "%s: operator[]", what);
    };
    sp::buffer<T> b(v); all_of(b, "buffer");
    sp::buffer_view<T> w(b); all_of(w, "buffer view");
    sp::buffer_view<const T> cw(v.data(), n); laws(cw.begin(), cw.end(), want, "const buffer view"); laws(cw.rbegin(), cw.rend(), rev, "const buffer view");
    sp::u8_buffer<T> u(v); all_of(u, "u8_buffer");
    sp::buffer<std::uint8_t> bytes(ar::raw(v));
    sp::buffer_adaptor<T, sp::buffer<std::uint8_t>&> ad(bytes); all_of(ad, "buffer adaptor");
    sp::buffer_adaptor<T, const sp::buffer<std::uint8_t>&> cad(bytes); laws(std::as_const(cad).begin(), std::as_const(cad).end(), want, "const buffer adaptor"); laws(std::as_const(cad).cbegin(), std::as_const(cad).cend(), want, "const buffer adaptor");
    // writing through it[n] is writing through *(it + n)
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j : {std::size_t(0), n - 1})
    {
        auto it = w.begin() + std::ptrdiff_t(j);
        it[std::ptrdiff_t(i) - std::ptrdiff_t(j)] = T(101);
        VP_CHECK(b[i] == T(101), "assignment through [%ld] at %zu", long(i) - long(j), j);
        *(it + (std::ptrdiff_t(i) - std::ptrdiff_t(j))) = v[i];
        VP_CHECK(b[i] == v[i], "assignment through +");
    }
}
// ---- bitsets
template <class W> static void bitsets()
{
    LeakScope l;
    const std::size_t B = sizeof(W) * 8;
    const std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, B - 1, B, B + 1, 2 * B, 2 * B + 1});
    const int pat = int(choose(4));
    std::vector<bool> m(n); ar::Strs want;
    for (std::size_t i = 0; i < n; ++i) { m[i] = pat == 0 ? false : pat == 1 ? true : pat == 2 ? i % 2 : i % 3 == 0; want.push_back(m[i] ? "1" : "0"); }
    note([&] { return fmt("%zu bits in blocks of %zu, pattern %d", n, B, pat); });
    auto all_of = [&](auto& b, const char* what)
    {
        laws(b.begin(), b.end(), want, what); laws(b.cbegin(), b.cend(), want, what); laws(std::as_const(b).begin(), std::as_const(b).end(), want, what);
        for (std::size_t i = 0; i < n; ++i)
        {
            for (std::size_t j : {std::size_t(0), n - 1, n})
            {
                auto it = b.begin() + std::ptrdiff_t(j); const std::ptrdiff_t d = std::ptrdiff_t(i) - std::ptrdiff_t(j);
                it[d] = !m[i]; VP_CHECK(bool(std::as_const(b)[i]) == !m[i], "%s: assignment through [%ld] at %zu", what, long(d), j);
                *(it + d) = bool(m[i]); VP_CHECK(bool(std::as_const(b)[i]) == m[i], "%s: assignment through +", what);
            }
        }
        laws(b.begin(), b.end(), want, what);
    };
    sp::dynamic_bitset<W> d(n, false); for (std::size_t i = 0; i < n; ++i) d.set(i, m[i]);
    all_of(d, "bitset");
    std::vector<W> blocks((n + B - 1) / B, W(~W(0)));
    for (std::size_t i = 0; i < n; ++i) if (!m[i]) blocks[i / B] = W(blocks[i / B] & ~(W(1) << (i % B)));
    sp::dynamic_bitset_view<W> v(blocks.data(), n); all_of(v, "view");
    sp::dynamic_bitset_view<const W> c(blocks.data(), n); laws(c.begin(), c.end(), want, "const view"); laws(c.cbegin(), c.cend(), want, "const view");
    sp::buffer<W> buf(blocks); sp::non_owning_dynamic_bitset<W> o(&buf, n); all_of(o, "non owning");
    if (pat == 1) { sp::dynamic_bitset_view<const W> none(nullptr, n); laws(none.begin(), none.end(), want, "view without storage"); }
}
// ---- the other ranges
static void others()
{
    LeakScope l;
    const std::size_t n = pick(std::vector<std::size_t>{0, 1, 2, 5, 9});
    note([&] { return fmt("%zu", n); });
    {
        sp::repeat_view<int> r(7, n);
        laws(r.begin(), r.end(), ar::Strs(n, "7"), "repeat view"); laws(r.cbegin(), r.cend(), ar::Strs(n, "7"), "repeat view");
    }
    {
        std::vector<std::string> names; std::vector<sp::array> cols;
        for (std::size_t i = 0; i < n; ++i) { names.push_back(std::string(i + 1, 'n')); cols.push_back(zoo::make(0, Mask(2, true)).a); }
        sp::record_batch b(names, cols);
        laws(b.names().begin(), b.names().end(), names, "names of a batch");
        std::size_t i = 0; for (const auto& c : b.columns()) { VP_CHECK(c == cols[i], "column %zu", i); ++i; }
        VP_CHECK(i == n, "columns");
    }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("arrays", [] { arrays(thorough() ? std::vector<std::size_t>{8, 9, 17, 65} : std::vector<std::size_t>{9}, tier(3, 6)); });
        #if PART == 2
        add("buffers u8", buffers_<std::uint8_t>); add("buffers i32", buffers_<std::int32_t>); add("buffers f64", buffers_<double>);
        add("bitsets u8", bitsets<std::uint8_t>); add("bitsets u16", bitsets<std::uint16_t>); add("bitsets u64", bitsets<std::uint64_t>);
        add("others", others);
        add("view arrays", view_arrays);
#endif
    });
}
