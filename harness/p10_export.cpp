// P10: exported Arrow C structures are valid and say what the array says
#include "zooutil.hpp"
using namespace vp;
using namespace zu;

static void catalogue(std::vector<std::size_t> big, std::size_t small, bool two_salts)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    Mask valid = shape(big, small);
    int salt = two_salts ? int(choose(2)) : 0;
    note([&] { return fmt("%s valid=%s salt=%d", zoo::kinds()[k].name.c_str(), show(valid).c_str(), salt); });
    auto m = zoo::make(k, valid, salt);
    const std::size_t n = valid.size();
    switch (choose(5))
    {
        case 0: full(m.a, m.want, "array"); break;
        case 1:
        {
            note([] { return std::string("extract"); });
            auto [a, s] = sp::extract_arrow_structures(std::move(m.a));
            says(s, a, m.want, "extracted");
            release(a, s);
            break;
        }
        case 2:
        {
            auto [s, e] = window(n);
            note([&, s = s, e = e] { return fmt("slice %zu %zu", s, e); });
            auto sl = m.a.slice(s, e);
            full(sl, sub(m.want, s, e), "slice");
            auto [a, c] = sp::extract_arrow_structures(std::move(sl));
            says(c, a, sub(m.want, s, e), "extracted slice");
            release(a, c);
            break;
        }
        case 3:
        {
            auto [s, e] = window(n);
            note([&, s = s, e = e] { return fmt("slice_view %zu %zu", s, e); });
            auto sl = m.a.slice_view(s, e);
            full(sl, sub(m.want, s, e), "slice view");
            break;
        }
        case 4:
        {
            note([] { return std::string("copy"); });
            sp::array c(m.a);
            full(c, m.want, "copy");
            // export, import, export
            auto [a, s] = sp::extract_arrow_structures(std::move(c));
            sp::array i(std::move(a), std::move(s));
            full(i, m.want, "imported again");
            break;
        }
    }
}
// string and binary view arrays and primitive arrays through their typed interface
template <class A, class V> static void views(const std::vector<V>& alphabet, std::string (*canon)(const V&))
{
    LeakScope l;
    std::size_t n = choose(tier(4, 5)); std::vector<V> v; Mask valid; ar::Strs want;
    for (std::size_t i = 0; i < n; ++i) { v.push_back(pick(alphabet)); valid.push_back(!flip()); want.push_back(valid[i] ? canon(v[i]) : ar::null_()); }
    A a(v, valid);
    auto [pa, ps] = sp::get_arrow_structures(a);
    says(*ps, *pa, want, "view array");
    VP_SAME(sc::shown(a), want, "elements");
    A c(a);
    auto [ca, cs] = sp::extract_arrow_structures(std::move(c));
    says(cs, ca, want, "copied view array");
    release(ca, cs);
}
static std::string cs(const std::string& s) { return ar::text(s); }
// known finding: the boolean layout stores one byte per value but is exported with the bit-packed format
static void bools()
{
    std::size_t n = 1 + choose(3); std::vector<bool> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(flip());
    sp::primitive_array<bool> a(v);
    auto [pa, ps] = sp::get_arrow_structures(a);
    ar::Strs want; for (bool b : v) want.push_back(b ? "b1" : "b0");
    VP_SAME(sc::shown(a), want, "elements");
    if (ar::decode_all(*ps, *pa) != want) cover("KF:bool-layout");
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("catalogue", [] { catalogue({7, 8, 9}, 3, true); });
        add("large", [] { catalogue({63, 64, 65, 130}, 0, false); });
        add("all null patterns", [] { catalogue({}, 6, false); }, {.thorough_only = true});
        add("huge", [] { catalogue({1000, 1024}, 0, false); }, {.thorough_only = true});
        add("string views", [] { views<sp::string_view_array, std::string>({"", "a", "abcdefghijkl", "abcdefghijklm", "zyxwvutsrqponmlkjihgfedcba0123456789"}, cs); });
        add("bool", bools);
    });
}
