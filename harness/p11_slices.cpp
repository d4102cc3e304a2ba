// P11: slices show exactly the requested window and never disturb the source
#include "src.hpp"
using namespace vp;
using namespace zu;

static std::size_t count_nulls(const ar::Strs& w) { std::size_t k = 0; for (auto& x : w) k += x == ar::null_(); return k; }

static void check_slice(sp::array& sl, const ar::Strs& want, const Source& s, const char* what)
{
    full(sl, want, what);
    auto nc = sp::get_arrow_array(sl)->null_count;
    if (s.has_validity && s.exact_nulls && !s.foreign)
    {
        auto f = std::string_view(sp::get_arrow_schema(sl)->format);
        if (ar::has_validity(f) && sp::get_arrow_array(sl)->dictionary == nullptr) VP_CHECK(nc == std::int64_t(count_nulls(want)), "%s: null count %ld, %zu nulls", what, (long) nc, count_nulls(want));
        else if (ar::has_validity(f)) VP_CHECK(nc >= 0, "%s: null count not computed", what);
    }
}
static void body(Source& src)
{
    sp::array& a = *src.a;
    const auto before = state(a);
    const std::size_t n = src.want.size();
    auto [b, e] = window(n);
    const auto want = sub(src.want, b, e);
    const bool view = flip();
    note([&, b = b, e = e] { return fmt("%s(%zu, %zu)", view ? "slice_view" : "slice", b, e); });
    std::optional<sp::array> sl(view ? a.slice_view(b, e) : a.slice(b, e));
    check_slice(*sl, want, src, "slice");
    VP_CHECK(sl->data_type() == a.data_type(), "data type of a slice");
    auto same = [&] { VP_CHECK(state(a) == before, "source changed: %s, was %s", state(a).c_str(), before.c_str()); shows(a, src.want, "source"); };
    auto shared = [&](sp::array& x, bool v)
    {
        const auto& ra = *sp::get_arrow_array(a); const auto& rx = *sp::get_arrow_array(x);
        if (v) VP_CHECK(buffers(ra) == buffers(rx), "a slice view does not share the buffers of its source");
        else VP_CHECK(disjoint(ra, rx), "an owning slice shares a buffer with its source");
    };
    shared(*sl, view);
    VP_CHECK(describe(*sp::get_arrow_schema(*sl)) == describe(*sp::get_arrow_schema(a)), "schema of a slice");
    same();
    switch (choose(5))
    {
        case 0:     // slice of the slice
        {
            auto [b2, e2] = window(e - b);
            const bool view2 = flip();
            note([&, b2 = b2, e2 = e2] { return fmt("then %s(%zu, %zu)", view2 ? "slice_view" : "slice", b2, e2); });
            const auto want2 = sub(want, b2, e2);
            {
                sp::array s2 = view2 ? sl->slice_view(b2, e2) : sl->slice(b2, e2);
                check_slice(s2, want2, src, "slice of slice");
                shared(s2, view && view2);
                if (!view2) { sl.reset(); shows(s2, want2, "slice of a destroyed slice"); }
                same();
            }
            if (sl) check_slice(*sl, want, src, "slice after its slice was destroyed");
            break;
        }
        case 1:     // the source goes first
            if (view) { sl.reset(); same(); break; }
            src.a.reset();
            full(*sl, want, "slice after its source was destroyed");
            return;
        case 2:     // typed slices
            a.visit([&, b = b, e = e](const auto& t)
            {
                using T = std::remove_cvref_t<decltype(t)>;
                if constexpr (requires { t.slice(b, e); })
                {
                    T x = view ? t.slice_view(b, e) : t.slice(b, e);
                    VP_CHECK(x.size() == e - b, "typed slice size");
                    VP_SAME(sc::iterated(x), want, "typed slice iterated");
                    sp::array y(std::move(x));
                    check_slice(y, want, src, "typed slice");
                }
            });
            break;
        case 3:     // copy and move of the slice
        {
            sp::array c(*sl);
            shared(c, false);
            sp::array m(std::move(*sl));
            sl.reset();
            full(c, want, "copy of a slice"); full(m, want, "moved slice");
            break;
        }
        case 4:     // extraction
            if (view) { sl.reset(); break; }
            {
                auto [x, s] = sp::extract_arrow_structures(std::move(*sl));
                sl.reset();
                says(s, x, want, "extracted slice");
                release(x, s);
            }
            break;
    }
    sl.reset();
    same();
}
static void built(std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    Mask m = shape(big, small);
    note([&] { return fmt("%s valid=%s", zoo::kinds()[k].name.c_str(), show(m).c_str()); });
    Source s; s.built(k, m, 0);
    body(s);
}
static void foreign(std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    Mask m = shape(big, small);
    auto o = thorough() ? choose_fopt(zoo::fkinds()[k].has_validity, m, {0, 3}, {0, 1}) : few_fopt(zoo::fkinds()[k].has_validity, m);
    int how = int(choose(2));
    note([&] { return fmt("foreign %s valid=%s %s %s", zoo::fkinds()[k].name.c_str(), show(m).c_str(), show(o).c_str(), how ? "by pointer" : "by value"); });
    Source s; s.import(k, m, o, how);
    body(s);
}
// every mutation of an owning slice leaves the source unchanged
static void mutated()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    if (zoo::kinds()[k].nested) prune();
    Mask m = shape({9}, 3);
    Source src; src.built(k, m, 0);
    sp::array& a = *src.a;
    const auto before = state(a);
    auto [b, e] = window(m.size());
    if (b == e) prune();
    const auto want = sub(src.want, b, e);
    a.visit([&, b = b, e = e](const auto& t)
    {
        using T = std::remove_cvref_t<decltype(t)>;
        if constexpr (requires (T x) { x.pop_back(); x.erase(x.cbegin()); })
        {
            T x = t.slice(b, e);
            const std::size_t i = choose(std::uint32_t(e - b));
            auto w = want;
            const int op = int(choose(6));
            note([&] { return fmt("%s[%zu,%zu) operation %d at %zu", src.name.c_str(), b, e, op, i); });
            typename T::value_type last(t[t.size() - 1]);
            const std::string lt = src.want.back();
            switch (op)
            {
                case 0: x[i] = sp::nullval; w[i] = ar::null_(); break;
                case 1: x.pop_back(); w.pop_back(); break;
                case 2: x.erase(std::next(x.cbegin(), std::ptrdiff_t(i))); w.erase(w.begin() + std::ptrdiff_t(i)); break;
                case 3: x.insert(std::next(x.cbegin(), std::ptrdiff_t(i)), last); w.insert(w.begin() + std::ptrdiff_t(i), lt); break;
                case 4: x.push_back(last); w.push_back(lt); break;
                case 5: x[i] = last; w[i] = lt; break;
            }
            VP_SAME(sc::shown(x), w, "mutated slice");
            sp::array y(std::move(x));
            full(y, w, "mutated slice");
        }
    });
    VP_CHECK(state(a) == before, "source changed");
    shows(a, src.want, "source");
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("built", [] { built({4, 9}, 2); });
        add("foreign", [] { foreign({}, tier(2, 3)); });
        add("mutated slices", mutated);
        add("large", [] { built({65, 130}, 0); }, {.thorough_only = true});
        add("built, all patterns", [] { built({}, 4); }, {.thorough_only = true});
    });
}
