// P18: array agrees with the typed layout it wraps; equality
#include "src.hpp"
using namespace vp;
using namespace zu;

template <class F> static bool throws_oor(F f) { try { (void) f(); return false; } catch (const std::out_of_range&) { return true; } }

// the layout the visitor must be called with
static std::string layout_name(const ArrowSchema& s)
{
    std::string f = s.format;
    if (s.dictionary) return "dict " + f;
    if (f.substr(0, 3) == "+w:") return "+w";
    if (f.substr(0, 3) == "+ud" || f.substr(0, 3) == "+us") return f.substr(0, 3);
    return f;
}
template <class T> static std::string typed_name()
{
    namespace s = sp;
    if constexpr (std::is_same_v<T, s::null_array>) return "n";
    else if constexpr (std::is_same_v<T, s::string_array>) return "u";
    else if constexpr (std::is_same_v<T, s::list_array>) return "+l";
    else if constexpr (std::is_same_v<T, s::big_list_array>) return "+L";
    else if constexpr (std::is_same_v<T, s::list_view_array>) return "+vl";
    else if constexpr (std::is_same_v<T, s::big_list_view_array>) return "+vL";
    else if constexpr (std::is_same_v<T, s::fixed_sized_list_array>) return "+w";
    else if constexpr (std::is_same_v<T, s::struct_array>) return "+s";
    else if constexpr (std::is_same_v<T, s::dense_union_array>) return "+ud";
    else if constexpr (std::is_same_v<T, s::sparse_union_array>) return "+us";
    else if constexpr (std::is_same_v<T, s::run_end_encoded_array>) return "+r";
#define VP_D(X, F) else if constexpr (std::is_same_v<T, s::dictionary_encoded_array<X>>) return "dict " F; else if constexpr (std::is_same_v<T, s::primitive_array<X>>) return F;
    VP_D(std::int8_t, "c") VP_D(std::uint8_t, "C") VP_D(std::int16_t, "s") VP_D(std::uint16_t, "S") VP_D(std::int32_t, "i") VP_D(std::uint32_t, "I") VP_D(std::int64_t, "l") VP_D(std::uint64_t, "L")
    else if constexpr (std::is_same_v<T, s::primitive_array<float>>) return "f";
    else if constexpr (std::is_same_v<T, s::primitive_array<double>>) return "g";
    else if constexpr (std::is_same_v<T, s::primitive_array<s::float16_t>>) return "e";
    else return "?";
}
static sp::data_type type_of(const std::string& name)
{
    std::string f = name.substr(0, 5) == "dict " ? name.substr(5) : name;
    using d = sp::data_type;
    if (f == "n") return d::NA; if (f == "u") return d::STRING; if (f == "+l") return d::LIST; if (f == "+L") return d::LARGE_LIST;
    if (f == "+vl") return d::LIST_VIEW; if (f == "+vL") return d::LARGE_LIST_VIEW; if (f == "+w") return d::FIXED_SIZED_LIST; if (f == "+s") return d::STRUCT;
    if (f == "+ud") return d::DENSE_UNION; if (f == "+us") return d::SPARSE_UNION; if (f == "+r") return d::RUN_ENCODED;
    switch (f[0])
    {
        case 'c': return d::INT8; case 'C': return d::UINT8; case 's': return d::INT16; case 'S': return d::UINT16; case 'i': return d::INT32; case 'I': return d::UINT32;
        case 'l': return d::INT64; case 'L': return d::UINT64; case 'e': return d::HALF_FLOAT; case 'f': return d::FLOAT; case 'g': return d::DOUBLE;
    }
    return d::NA;
}
static void agrees(sp::array& a, const ar::Strs& want, const char* what)
{
    shows(a, want, what);
    const std::size_t n = want.size();
    const sp::array& ca = a;
    for (std::size_t i = 0; i < n; ++i) VP_CHECK(sc::canon(ca.at(i)) == want[i], "%s: at(%zu) is %s, expected %s", what, i, sc::canon(ca.at(i)).c_str(), want[i].c_str());
    VP_CHECK(throws_oor([&] { return ca.at(n); }) && throws_oor([&] { return ca.at(n + 1); }) && throws_oor([&] { return ca.at(std::size_t(-1)); }), "%s: at() past the end", what);
    if (n) VP_CHECK(sc::canon(ca.front()) == want.front() && sc::canon(ca.back()) == want.back(), "%s: front() / back()", what);
    auto [pa, ps] = sp::get_arrow_structures(a);
    const std::string ln = layout_name(*ps);
    VP_CHECK(a.data_type() == type_of(ln), "%s: data type %d for %s", what, int(a.data_type()), ln.c_str());
    int visits = 0;
    const std::string seen = a.visit([&](const auto& t) -> std::string
    {
        using T = std::remove_cvref_t<decltype(t)>;
        ++visits;
        VP_CHECK(t.size() == n, "%s: typed size", what);
        VP_SAME(sc::shown(t), want, "%s: typed elements", what);
        VP_SAME(sc::iterated(t), want, "%s: typed elements, iterated", what);
        if constexpr (requires { t.empty(); t.front(); t.at(0); })
        {
            VP_CHECK(t.empty() == (n == 0), "%s: typed empty()", what);
            for (std::size_t i = 0; i < n; ++i) VP_CHECK(sc::canon(t.at(i)) == want[i], "%s: typed at(%zu)", what, i);
            VP_CHECK(throws_oor([&] { return t.at(n); }), "%s: typed at() past the end", what);
            if (n) VP_CHECK(sc::canon(t.front()) == want.front() && sc::canon(t.back()) == want.back(), "%s: typed front() / back()", what);
        }
        if constexpr (requires { t.bitmap(); t.values(); })
        {
            std::size_t i = 0;
            for (bool b : t.bitmap()) { VP_CHECK(i < n && b == (want[i] != ar::null_()), "%s: bitmap()[%zu]", what, i); ++i; }
            VP_CHECK(i == n, "%s: size of bitmap()", what);
            i = 0;
            for (auto&& v : t.values()) { if (i < n && want[i] != ar::null_()) VP_CHECK(sc::canon_value(v) == want[i], "%s: values()[%zu]", what, i); ++i; }
            VP_CHECK(i == n, "%s: size of values()", what);
        }
        return typed_name<T>();
    });
    VP_CHECK(visits == 1 && seen == ln, "%s: visited with layout %s, expected %s", what, seen.c_str(), ln.c_str());
}
static void views(std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    Mask m = shape(big, small);
    note([&] { return fmt("%s valid=%s", zoo::kinds()[k].name.c_str(), show(m).c_str()); });
    Source s; s.built(k, m, 0);
    agrees(*s.a, s.want, "array");
    switch (choose(6))
    {
        case 0: { sp::array r = s.a->slice_view(0, m.size()); agrees(r, s.want, "slice view"); break; }
        case 1:
        {
            auto [x, c] = sp::extract_arrow_structures(std::move(*s.a));
            sp::array i(std::move(x), std::move(c));
            agrees(i, s.want, "imported");
            break;
        }
        case 2:
        {
            auto [x, c] = sp::get_arrow_structures(*s.a);
            sp::array i(x, c);
            agrees(i, s.want, "imported by pointer");
            VP_CHECK(i == *s.a, "imported array compares unequal");
            break;
        }
        case 3:     // pointer and shared pointer to a typed layout
            s.a->visit([&](const auto& t)
            {
                using T = std::remove_cvref_t<decltype(t)>;
                T x(t);
                {
                    sp::array p(&x);
                    agrees(p, s.want, "array of a pointer");
                    sp::array q(p);
                    agrees(q, s.want, "copy of an array of a pointer");
                    VP_CHECK(sp::get_arrow_array(p) == sp::get_arrow_array(x), "an array of a pointer refers to another array");
                }
                auto sh = std::make_shared<T>(std::move(x));
                sp::array p(sh);
                agrees(p, s.want, "array of a shared pointer");
                VP_CHECK(sp::get_arrow_array(p) == sp::get_arrow_array(*sh), "an array of a shared pointer refers to another array");
                sh.reset();
                agrees(p, s.want, "array of the last shared pointer");
            });
            break;
        case 4: { sp::array mv(std::move(*s.a)); agrees(mv, s.want, "moved"); break; }
        case 5: { sp::array as; as = std::move(*s.a); agrees(as, s.want, "move assigned"); sp::array bs(as); bs = std::move(as); agrees(bs, s.want, "move assigned twice"); break; }
    }
}
static void foreign()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    Mask m = shape({9}, 3);
    auto o = few_fopt(zoo::fkinds()[k].has_validity, m);
    int how = int(choose(3));
    note([&] { return fmt("foreign %s valid=%s %s import %d", zoo::fkinds()[k].name.c_str(), show(m).c_str(), show(o).c_str(), how); });
    Source s; s.import(k, m, o, how);
    agrees(*s.a, s.want, "imported");
}
// two nulls of different alternatives of a union have equal texts, whether they are equal is not stated
static bool ambiguous(std::size_t k, const ar::Strs& w)
{
    const auto& n = zoo::kinds()[k].name;
    if (n.find("dense") == n.npos && n.find("sparse") == n.npos) return false;
    for (auto& x : w) if (x.find('~') != x.npos) return true;
    return false;
}
// equality holds exactly when the layouts and all the elements agree
static void equality()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    std::size_t n = choose(tier(3, 4));
    Mask m1 = zoo::choose_mask(n), m2 = zoo::choose_mask(choose(tier(3, 4)));
    int s1 = int(choose(2)), s2 = int(choose(2));
    auto x = zoo::make(k, m1, s1), y = zoo::make(k, m2, s2);
    note([&] { return fmt("%s valid=%s salt %d, valid=%s salt %d", zoo::kinds()[k].name.c_str(), show(m1).c_str(), s1, show(m2).c_str(), s2); });
    bool want = x.want == y.want;
    if (want && s1 != s2 && ambiguous(k, x.want)) prune();
    // two fixed size lists may differ in the size of their lists, dictionaries and runs in their encoding: only the elements count
    VP_CHECK((x.a == y.a) == want && (y.a == x.a) == want, "== is %d: %s", x.a == y.a, ar::diff(x.want, y.want).c_str());
    VP_CHECK((x.a != y.a) == !want, "!=");
    VP_CHECK(x.a == x.a, "an array is equal to itself");
}
static void distinct()
{
    LeakScope l;
    std::size_t k1 = choose(std::uint32_t(zoo::kinds().size())), k2 = choose(std::uint32_t(zoo::kinds().size()));
    std::size_t n = choose(3); int s = int(choose(2));
    Mask m(n, true); if (n && flip()) m[0] = false;
    auto x = zoo::make(k1, m, 0), y = zoo::make(k2, m, s);
    note([&] { return zoo::kinds()[k1].name + " / " + zoo::kinds()[k2].name; });
    auto lx = layout_name(*sp::get_arrow_schema(x.a)), ly = layout_name(*sp::get_arrow_schema(y.a));
    if (lx != ly) VP_CHECK(!(x.a == y.a) && x.a != y.a, "arrays of layouts %s and %s are equal", lx.c_str(), ly.c_str());
    else if (n && x.want != y.want) VP_CHECK(!(x.a == y.a), "different elements compare equal: %s", ar::diff(x.want, y.want).c_str());
}
// equality through slices: same elements at different offsets
static void sliced_equality()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    Mask m = zoo::choose_mask(tier(3, 4));
    auto x = zoo::make(k, m, 0);
    auto [b1, e1] = window(m.size()); auto [b2, e2] = window(m.size());
    note([&, b1 = b1, e1 = e1, b2 = b2, e2 = e2] { return fmt("%s valid=%s [%zu,%zu) [%zu,%zu)", zoo::kinds()[k].name.c_str(), show(m).c_str(), b1, e1, b2, e2); });
    auto s = flip() ? x.a.slice(b1, e1) : x.a.slice_view(b1, e1), t = x.a.slice(b2, e2);
    bool want = sub(x.want, b1, e1) == sub(x.want, b2, e2);
    if (want && (b1 != b2 || e1 != e2) && ambiguous(k, sub(x.want, b1, e1))) prune();
    VP_CHECK((s == t) == want && (t == s) == want, "== is %d", s == t);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("built", [] { views({8, 9, 65}, 3); });
        add("foreign", foreign);
        add("equality", equality);
        add("distinct layouts", distinct);
        add("equality of slices", sliced_equality);
        add("all null patterns", [] { views({64, 130}, 6); }, {.thorough_only = true});
    });
}
