// P12: every way of stating validity builds the same array
#include "deep.hpp"
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <deque>
#include <list>
#include <set>
using namespace vp;
using namespace zu;

static const int N_FORMS = 24;
static const char* const FORM[N_FORMS] = {"none", "const bitmap&", "bitmap&&", "bitmap&", "vector<bool>", "const vector<bool>&", "list<bool>", "transformed bools", "deque<bool>", "positions", "positions reversed and repeated",
    "positions u8", "positions u16", "filtered positions", "set of positions", "empty bitmap", "no bools", "no positions", "bitmap of adopted memory with garbage", "bitmap without storage", "bitmap built step by step", "bitset view", "bitmap of another array", "const list of positions"};

// calls make(validity...) with the chosen form of stating the mask; prunes forms that cannot state it
template <class F> static sp::array with_form(int form, const Mask& m, F make)
{
    const std::size_t n = m.size();
    const bool ok = all(m);
    sp::validity_bitmap b(n, true);
    for (std::size_t i = 0; i < n; ++i) if (!m[i]) b.set(i, false);
    std::vector<std::size_t> pos; for (std::size_t i = 0; i < n; ++i) if (!m[i]) pos.push_back(i);
    switch (form)
    {
        case 0: if (!ok) prune(); return make();
        case 1: return make(std::as_const(b));
        case 2: return make(std::move(b));
        case 3: return make(b);
        case 4: return make(std::vector<bool>(m));
        case 5: return make(m);
        case 6: return make(std::list<bool>(m.begin(), m.end()));
        case 7: { std::vector<int> x; for (bool v : m) x.push_back(v ? 5 : 0); return make(x | std::views::transform([](int v) { return v != 0; })); }
        case 8: return make(std::deque<bool>(m.begin(), m.end()));
        case 9: return make(pos);
        case 10: { std::vector<std::size_t> p(pos.rbegin(), pos.rend()); p.insert(p.end(), pos.begin(), pos.end()); return make(std::move(p)); }
        case 11: { std::vector<std::uint8_t> p(pos.begin(), pos.end()); return make(p); }
        case 12: { std::vector<std::uint16_t> p(pos.begin(), pos.end()); return make(std::move(p)); }
        case 13: return make(std::views::iota(std::size_t(0), n) | std::views::filter([&](std::size_t i) { return !m[i]; }));
        case 14: return make(std::set<std::uint32_t>(pos.begin(), pos.end()));
        case 15: if (!ok) prune(); return make(sp::validity_bitmap{});
        case 16: if (!ok) prune(); return make(std::vector<bool>{});
        case 17: if (!ok) prune(); return make(std::vector<std::size_t>{});
        case 18:
        {
            if (n == 0) prune();
            auto bytes = ar::pack(m, true);
            std::allocator<std::uint8_t> al;
            auto* p = al.allocate(bytes.size());
            std::copy(bytes.begin(), bytes.end(), p);
            return make(sp::validity_bitmap(p, n));
        }
        case 19: if (!ok) prune(); return make(sp::validity_bitmap(static_cast<std::uint8_t*>(nullptr), n));
        case 20:
        {
            sp::validity_bitmap c; c.push_back(false);
            for (std::size_t i = n; i-- > 0;) c.insert(c.cbegin(), bool(m[i]));
            c.pop_back();
            return make(std::move(c));
        }
        case 21:
        {
            auto bytes = ar::pack(m, true);
            sp::dynamic_bitset_view<const std::uint8_t> v(bytes.data(), n);
            return make(v);
        }
        case 22:
        {
            sp::primitive_array<std::int8_t> o(std::vector<std::int8_t>(n, 1), m);
            return make(std::as_const(o).bitmap());
        }
        default: { const std::list<unsigned> p(pos.begin(), pos.end()); return make(p); }
    }
}
struct Target { const char* name; std::function<sp::array(int, const Mask&, ar::Strs&)> build; bool exported = true; };
static ar::Strs masked(ar::Strs v, const Mask& m) { for (std::size_t i = 0; i < m.size(); ++i) if (!m[i]) v[i] = ar::null_(); return v; }

template <class T> static Target prim(const char* name, bool exported = true)
{
    return {name, [](int form, const Mask& m, ar::Strs& w)
    {
        std::vector<T> v;
        for (std::size_t i = 0; i < m.size(); ++i) { v.push_back(T(float(i % 50 + 1))); w.push_back(sc::canon_value(T(v.back()))); }
        w = masked(w, m);
        const int how = int(choose(3));
        return with_form(form, m, [&](auto&&... x) -> sp::array
        {
            if (how == 0) return sp::array(sp::primitive_array<T>(v, std::forward<decltype(x)>(x)...));
            if (how == 1) return sp::array(sp::primitive_array<T>(sp::u8_buffer<T>(v), std::forward<decltype(x)>(x)...));
            std::list<T> l(v.begin(), v.end());
            return sp::array(sp::primitive_array<T>(l, std::forward<decltype(x)>(x)...));
        });
    }, exported};
}
static std::string word(std::size_t i) { return std::string(i % 4 == 3 ? 14 : i % 4, char('a' + i % 26)); }
static sp::array child_of(std::size_t n, ar::Strs& c) { auto x = zoo::make(kind("i32"), Mask(n, true), 1); c = x.want; return std::move(x.a); }
static std::vector<Target> targets()
{
    std::vector<Target> t{prim<std::int32_t>("i32"), prim<double>("f64"), prim<std::uint8_t>("u8"), prim<std::int64_t>("i64"), prim<sp::float16_t>("f16"), prim<bool>("bool", false)};
    t.push_back({"string", [](int form, const Mask& m, ar::Strs& w)
    {
        std::vector<std::string> v; for (std::size_t i = 0; i < m.size(); ++i) { v.push_back(word(i)); w.push_back(ar::text(v.back())); }
        w = masked(w, m);
        const int how = int(choose(2));
        return with_form(form, m, [&](auto&&... x) -> sp::array
        {
            if (how == 0) return sp::array(sp::string_array(v, std::forward<decltype(x)>(x)...));
            std::string d; std::vector<std::size_t> sz; for (auto& s : v) { d += s; sz.push_back(s.size()); }
            return sp::array(sp::string_array(sp::u8_buffer<char>(d), sp::string_array::offset_from_sizes(sz), std::forward<decltype(x)>(x)...));
        });
    }});
    t.push_back({"string view", [](int form, const Mask& m, ar::Strs& w)
    {
        std::vector<std::string> v; for (std::size_t i = 0; i < m.size(); ++i) { v.push_back(word(i)); w.push_back(ar::text(v.back())); }
        w = masked(w, m);
        std::vector<std::string_view> in(v.begin(), v.end());
        ar::Strs typed_; std::int64_t nc = 0;
        auto r = with_form(form, m, [&](auto&&... x) -> sp::array
        {
            sp::string_view_array a(in, std::forward<decltype(x)>(x)...);
            typed(a, w, "string views");
            const auto& p = sp::detail::array_access::get_arrow_proxy(a);
            says(p.schema(), p.array(), w, "string views");
            nc = p.array().null_count;
            VP_CHECK(nc == nulls(m), "null count %ld", (long) nc);
            // arrays of views cannot be type-erased: hand out the same elements as strings
            std::vector<sp::nullable<std::string>> s;
            for (std::size_t i = 0; i < a.size(); ++i) { auto e = a[i]; if (e.has_value()) s.emplace_back(std::string(e.get())); else s.emplace_back(); }
            return sp::array(sp::string_array(s));
        });
        return r;
    }});
    t.push_back({"list", [](int form, const Mask& m, ar::Strs& w)
    {
        std::vector<std::size_t> sz; std::size_t tot = 0; for (std::size_t i = 0; i < m.size(); ++i) { sz.push_back(i % 3); tot += i % 3; }
        ar::Strs c; sp::array ch = child_of(tot, c);
        for (std::size_t i = 0, b = 0; i < m.size(); b += sz[i++]) w.push_back(list_text(c, b, sz[i]));
        w = masked(w, m);
        return with_form(form, m, [&](auto&&... x) -> sp::array { return sp::array(sp::list_array(std::move(ch), sp::list_array::offset_from_sizes(sz), std::forward<decltype(x)>(x)...)); });
    }});
    t.push_back({"big list view", [](int form, const Mask& m, ar::Strs& w)
    {
        std::vector<std::uint64_t> off, sz; for (std::size_t i = 0; i < m.size(); ++i) { off.push_back(m.size() - i - 1); sz.push_back(i % 2); }
        ar::Strs c; sp::array ch = child_of(m.size() + 1, c);
        for (std::size_t i = 0; i < m.size(); ++i) w.push_back(list_text(c, off[i], sz[i]));
        w = masked(w, m);
        return with_form(form, m, [&](auto&&... x) -> sp::array { return sp::array(sp::big_list_view_array(std::move(ch), sp::u8_buffer<std::uint64_t>(off), sp::u8_buffer<std::uint64_t>(sz), std::forward<decltype(x)>(x)...)); });
    }});
    t.push_back({"fixed list", [](int form, const Mask& m, ar::Strs& w)
    {
        ar::Strs c; sp::array ch = child_of(2 * m.size(), c);
        for (std::size_t i = 0; i < m.size(); ++i) w.push_back(list_text(c, 2 * i, 2));
        w = masked(w, m);
        return with_form(form, m, [&](auto&&... x) -> sp::array { return sp::array(sp::fixed_sized_list_array(std::uint64_t(2), std::move(ch), std::forward<decltype(x)>(x)...)); });
    }});
    t.push_back({"struct", [](int form, const Mask& m, ar::Strs& w)
    {
        ar::Strs c, d; std::vector<sp::array> ch; ch.push_back(child_of(m.size(), c)); ch.push_back(child_of(m.size(), d));
        for (std::size_t i = 0; i < m.size(); ++i) w.push_back("{" + c[i] + "," + d[i] + "}");
        w = masked(w, m);
        return with_form(form, m, [&](auto&&... x) -> sp::array { return sp::array(sp::struct_array(std::move(ch), std::forward<decltype(x)>(x)...)); });
    }});
    t.push_back({"dictionary", [](int form, const Mask& m, ar::Strs& w)
    {
        std::vector<std::uint16_t> k; ar::Strs c; sp::array ch = child_of(3, c);
        for (std::size_t i = 0; i < m.size(); ++i) { k.push_back(std::uint16_t(i % 3)); w.push_back(c[i % 3]); }
        w = masked(w, m);
        return with_form(form, m, [&](auto&&... x) -> sp::array { return sp::array(sp::dictionary_encoded_array<std::uint16_t>(sp::u8_buffer<std::uint16_t>(k), std::move(ch), std::forward<decltype(x)>(x)...)); });
    }});
    return t;
}
static void check(sp::array& a, const ar::Strs& w, const Mask& m, bool exported)
{
    if (exported)
    {
        full(a, w, "array"); typed(a, w, "array");
        auto [pa, ps] = sp::get_arrow_structures(a);
        VP_CHECK(pa->null_count == nulls(m), "null count %ld, expected %ld", (long) pa->null_count, (long) nulls(m));
        VP_CHECK((ps->flags & 2) != 0, "not nullable");
    }
    else shows(a, w, "array");
}
static void forms(std::vector<std::size_t> big, std::size_t small)
{
    static const auto& ts = *new std::vector<Target>(targets());
    LeakScope l;
    const auto& t = ts[choose(std::uint32_t(ts.size()))];
    const int form = int(choose(N_FORMS));
    Mask m = shape(big, small);
    note([&] { return fmt("%s, validity by %s, valid %s", t.name, FORM[form], show(m).c_str()); });
    ar::Strs w;
    sp::array a = t.build(form, m, w);
    check(a, w, m, t.exported);
    // the same array by another form
    ar::Strs w2;
    sp::array b = t.build(5, m, w2);
    VP_CHECK(w == w2, "harness");
    VP_CHECK(a == b, "arrays with the same elements differ");
}
// ranges of nullable values
template <class T, class A> static void nullables(T (*val)(std::size_t), std::string (*txt)(const T&), std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    Mask m = shape(big, small);
    std::vector<sp::nullable<T>> v; ar::Strs w;
    const bool hidden = flip();
    for (std::size_t i = 0; i < m.size(); ++i)
    {
        auto x = val(i);
        if (m[i]) v.emplace_back(x); else if (hidden) v.push_back(sp::nullable<T>(x, false)); else v.push_back(sp::nullval);
        w.push_back(m[i] ? txt(x) : ar::null_());
    }
    const int how = int(choose(4));
    note([&] { return fmt("nullable values, valid %s, range %d", show(m).c_str(), how); });
    sp::array a = [&]
    {
        switch (how)
        {
            case 0: return sp::array(A(v));
            case 1: { const auto& c = v; return sp::array(A(c)); }
            case 2: return sp::array(A(std::list<sp::nullable<T>>(v.begin(), v.end())));
            default: return sp::array(A(std::views::all(v)));
        }
    }();
    check(a, w, m, true);
    std::vector<T> plain; for (std::size_t i = 0; i < m.size(); ++i) plain.push_back(val(i));
    sp::array b(A(plain, m));
    VP_CHECK(a == b, "arrays with the same elements differ");
}
// no validity: repeated values, initializer lists, sizes
static void plain()
{
    LeakScope l;
    using A = sp::primitive_array<std::int32_t>;
    static const std::size_t ns[] = {0, 1, 7, 8, 9, 63, 64, 65, 128, 129};
    const std::size_t n = ns[choose(10)];
    Mask m(n, true); ar::Strs w(n, ar::prim<std::int32_t>(7));
    sp::array a = [&]
    {
        switch (choose(4))
        {
            case 0: return sp::array(A(n, 7));
            case 1: return sp::array(A(std::views::iota(std::size_t(0), n) | std::views::transform([](std::size_t) { return std::int32_t(7); })));
            case 2: return sp::array(A(sp::u8_buffer<std::int32_t>(n, 7)));
            default: if (n > 1) prune(); return n ? sp::array(A({7})) : sp::array(A(std::initializer_list<std::int32_t>{}));
        }
    }();
    check(a, w, m, true);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("forms", [] { forms({7, 8, 9, 16, 17, 63, 64, 65}, tier(4, 6)); });
        add("forms: nine elements", [] { forms({}, 9); }, {.thorough_only = true});
        add("nullable i32", [] { nullables<std::int32_t, sp::primitive_array<std::int32_t>>([](std::size_t i) { return std::int32_t(i * 3); }, [](const std::int32_t& x) { return ar::prim(x); }, {16, 17, 64, 65}, tier(8, 10)); });
        add("nullable f64", [] { nullables<double, sp::primitive_array<double>>([](std::size_t i) { return double(i) / 3; }, [](const double& x) { return ar::prim(x); }, {8, 9}, 5); });
        add("nullable string", [] { nullables<std::string, sp::string_array>([](std::size_t i) { return word(i); }, [](const std::string& x) { return ar::text(x); }, {16, 17, 64, 65}, tier(6, 9)); });
        add("plain", plain);
    });
}
