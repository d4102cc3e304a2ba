// P07: copies of arrays are equal and fully independent
#include "src.hpp"
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <sparrow/arrow_array_schema_proxy.hpp>
using namespace vp;
using namespace zu;

// no memory of the copy is memory of the source, at any level
static void strings(const ArrowSchema& s, std::vector<const void*>& r)
{
    r.push_back(&s); r.push_back(s.format); if (s.name) r.push_back(s.name); if (s.metadata) r.push_back(s.metadata);
    if (s.children) r.push_back(s.children);
    for (std::int64_t i = 0; i < s.n_children; ++i) strings(*s.children[i], r);
    if (s.dictionary) strings(*s.dictionary, r);
}
static void structs(const ArrowArray& a, std::vector<const void*>& r)
{
    r.push_back(&a); if (a.buffers && a.n_buffers) r.push_back(a.buffers); if (a.children) r.push_back(a.children);
    for (std::int64_t i = 0; i < a.n_children; ++i) structs(*a.children[i], r);
    if (a.dictionary) structs(*a.dictionary, r);
}
static bool all_apart(const ArrowSchema& s1, const ArrowArray& a1, const ArrowSchema& s2, const ArrowArray& a2)
{
    std::vector<const void*> x, y;
    strings(s1, x); structs(a1, x); buffers(a1, x); strings(s2, y); structs(a2, y); buffers(a2, y);
    for (auto p : x) for (auto q : y) if (p == q) return false;
    return true;
}
// length, offset, null counts and the presence of every optional buffer are preserved
static std::string layout_of(const ArrowArray& a)
{
    std::string r = fmt("(%ld,%ld,%ld:", (long) a.length, (long) a.offset, (long) a.n_buffers);
    for (std::int64_t i = 0; i < a.n_children; ++i) r += layout_of(*a.children[i]);
    if (a.dictionary) r += "d" + layout_of(*a.dictionary);
    return r + ")";
}
static void equal(sp::array& c, sp::array& a, const ar::Strs& want)
{
    full(c, want, "copy");
    VP_CHECK(c == a && a == c, "the copy compares unequal to its source");
    auto [ca, cs] = sp::get_arrow_structures(c); auto [aa, as] = sp::get_arrow_structures(a);
    VP_CHECK(describe(*cs) == describe(*as), "schema of the copy %s, of the source %s", describe(*cs).c_str(), describe(*as).c_str());
    VP_CHECK(layout_of(*ca) == layout_of(*aa), "structure of the copy %s, of the source %s", layout_of(*ca).c_str(), layout_of(*aa).c_str());
    VP_CHECK(all_apart(*cs, *ca, *as, *aa), "the copy shares memory with its source");
    VP_CHECK(c.data_type() == a.data_type(), "data type");
    VP_CHECK(sp::owns_arrow_array(c) && sp::owns_arrow_schema(c), "a copy owns its structures");
}
static void after(std::optional<sp::array>& c, Source& src, sp::array& a, std::function<void()> kill_source, const ar::Strs& want)
{
    const auto before = state(a);
    switch (choose(4))
    {
        case 0:
            note([] { return std::string("destroy the source"); });
            kill_source();
            full(*c, want, "copy after the source was destroyed");
            break;
        case 1:
            note([] { return std::string("destroy the copy"); });
            c.reset();
            VP_CHECK(state(a) == before, "destroying the copy changed the source");
            shows(a, want, "source");
            break;
        case 2:
            note([] { return std::string("extract and release the copy"); });
            {
                auto [x, s] = sp::extract_arrow_structures(std::move(*c));
                c.reset();
                says(s, x, want, "extracted copy");
                release(x, s);
                VP_CHECK(state(a) == before, "releasing the copy changed the source");
                shows(a, want, "source");
            }
            break;
        case 3:
            note([] { return std::string("overwrite the copy with a copy of itself, then with an empty array"); });
            {
                sp::array d(*c);
                *c = d;
                equal(*c, a, want);
                *c = sp::array();
                VP_CHECK(c->size() == 0, "size after assignment of an empty array");
                kill_source();
                full(d, want, "copy of a copy");
            }
            break;
    }
}
static std::optional<sp::array> copy_of(const sp::array& a, int how)
{
    std::optional<sp::array> c;
    switch (how)
    {
        case 0: c.emplace(a); break;
        case 1: c.emplace(); *c = a; break;
        case 2: c.emplace(sp::array(sp::primitive_array<std::int32_t>({1, 2}))); *c = a; break;
        case 3: c.emplace(a); c = c->slice(0, 0); *c = a; break;            // same layout, other content
        case 4: a.visit([&](const auto& t) { using T = std::remove_cvref_t<decltype(t)>; T x(t); c.emplace(sp::array(std::move(x))); }); break;
        case 5: a.visit([&](const auto& t)
            {
                using T = std::remove_cvref_t<decltype(t)>;
                if constexpr (requires { t.slice(0, 0); }) { T x(t.slice(0, t.size() / 2)); x = t; T y(t.slice(0, 0)); y = std::move(x); c.emplace(sp::array(std::move(y))); }
                else { T x(t); T y(t); y = x; c.emplace(sp::array(std::move(y))); }
            });
            break;
        case 6:                 // C structures
        {
            auto& na = const_cast<sp::array&>(a);
            auto [pa, ps] = sp::get_arrow_structures(na);
            ArrowArray ca = sp::copy_array(*pa, *ps); ArrowSchema cs = sp::copy_schema(*ps);
            c.emplace(std::move(ca), std::move(cs));
            break;
        }
        case 7:                 // proxies
        {
            auto& na = const_cast<sp::array&>(a);
            auto [pa, ps] = sp::get_arrow_structures(na);
            sp::arrow_proxy p(pa, ps);          // not owning
            sp::arrow_proxy q(p);
            sp::arrow_proxy r(sp::copy_array(*pa, *ps), sp::copy_schema(*ps));
            r = q;
            auto x = r.extract_array(); auto s = r.extract_schema();
            c.emplace(std::move(x), std::move(s));
            break;
        }
    }
    return c;
}
static void body(Source& src)
{
    const int form = int(choose(4)), how = int(choose(8));
    std::optional<sp::array> w;      // slices of the source
    ar::Strs want = src.want;
    const std::size_t n = want.size();
    if (form == 1) { w.emplace(src.a->slice(n / 3, n - n / 4)); want = sub(want, n / 3, n - n / 4); }
    if (form == 2) { w.emplace(src.a->slice_view(n / 3, n - n / 4)); want = sub(want, n / 3, n - n / 4); }
    if (form == 3) { if (n == 0) prune(); w.emplace(src.a->slice(1, n).slice_view(0, n - 1)); w.reset(); w.emplace(src.a->slice(1, n)); want = sub(want, 1, n); }
    note([&] { return fmt("form %d copied by method %d", form, how); });
    sp::array& a = w ? *w : *src.a;
    const auto before = state(a);
    auto c = copy_of(a, how);
    VP_CHECK(state(a) == before, "copying changed the source: %s was %s", state(a).c_str(), before.c_str());
    equal(*c, a, want);
    auto kill = [&] { w.reset(); if (src.by_pointer) { src.a.reset(); if (src.fa.release) src.fa.release(&src.fa); src.fs.release(&src.fs); } src.a.reset(); };
    after(c, src, a, kill, want);
}
static void built(std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    Mask m = shape(big, small);
    note([&] { return fmt("%s valid=%s", zoo::kinds()[k].name.c_str(), show(m).c_str()); });
    Source s; s.built(k, m, 0);
    body(s);
}
static void foreign(std::vector<std::size_t> big, std::size_t small)
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    Mask m = shape(big, small);
    auto o = thorough() ? choose_fopt(zoo::fkinds()[k].has_validity, m, {0, 3}, {0, 1}) : few_fopt(zoo::fkinds()[k].has_validity, m);
    int how = int(choose(3));
    note([&] { return fmt("foreign %s valid=%s %s import %d", zoo::fkinds()[k].name.c_str(), show(m).c_str(), show(o).c_str(), how); });
    Source s; s.import(k, m, o, how);
    body(s);
}
// a name at every level, metadata
static void named()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    auto f = zoo::fmake(k, {true, true, false == (k == 0)}, {});
    std::function<void(ar::FNode&, int)> name = [&](ar::FNode& n, int d)
    {
        n.name = d % 2 ? std::optional<std::string>() : "name" + std::to_string(d); n.metadata = d % 3 == 0 ? std::optional<std::string>("meta" + std::to_string(d)) : std::nullopt;
        n.flags = (d & 1 ? 4 : 0) | (d & 2 ? 1 : 0) | 2;
        for (std::size_t i = 0; i < n.children.size(); ++i) name(n.children[i], d + 1 + int(i));
        if (!n.dictionary.empty()) name(n.dictionary[0], d + 1);
    };
    name(f.n, int(choose(4)));
    note([&] { return zoo::fkinds()[k].name; });
    ar::Tracker t;
    {
        sp::array a(f.n.array(t), f.n.schema(t));
        auto c = copy_of(a, int(choose(8)));
        equal(*c, a, f.want);
    }
    t.check(0, 0);
}
// proxies over structures of every format, also those without layout class
static void proxies()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::pkinds().size()));
    Mask m = shape({9}, 2);
    auto o = thorough() ? choose_fopt(true, m, {0, 3}, {0, 1}) : few_fopt(true, m);
    note([&] { return fmt("proxy %s valid=%s %s", zoo::pkinds()[k].name.c_str(), show(m).c_str(), show(o).c_str()); });
    auto f = zoo::pmake(k, m, o);
    ar::Tracker t;
    ArrowArray fa = f.n.array(t); ArrowSchema fs = f.n.schema(t);
    says(fs, fa, f.want, "source");
    {
        const int how = int(choose(4));
        std::optional<sp::arrow_proxy> p(std::in_place, &fa, &fs), c;
        switch (how)
        {
            case 0: c.emplace(*p); break;
            case 1: c.emplace(sp::copy_array(fa, fs), sp::copy_schema(fs)); break;
            case 2: c.emplace(p->slice(0, p->length())); break;
            case 3: c.emplace(p->slice_view(0, p->length())); { sp::arrow_proxy d(*c); *c = d; } break;
        }
        VP_CHECK(c->length() == m.size() && c->offset() == o.offset && c->format() == f.n.format, "copy of the proxy");
        VP_CHECK(c->data_type() == p->data_type() && c->flags() == p->flags(), "type of the copy");
        auto [ca, cs] = std::pair<ArrowArray*, ArrowSchema*>(&c->array(), &c->schema());
        says(*cs, *ca, f.want, "copy");
        VP_CHECK(describe(*cs) == describe(fs) && layout_of(*ca) == layout_of(fa), "structure of the copy");
        VP_CHECK(all_apart(*cs, *ca, fs, fa), "the copy shares memory with its source");
        VP_CHECK(c->buffers().size() == p->buffers().size(), "buffers");
        for (std::size_t b = 0; b < p->buffers().size(); ++b)
        {
            VP_CHECK(c->buffers()[b].size() == p->buffers()[b].size(), "size of buffer %zu: %zu, of the copy %zu", b, p->buffers()[b].size(), c->buffers()[b].size());
            // every byte that the format gives a meaning to: the buffers of this catalogue are exactly sized
            VP_CHECK(p->buffers()[b].size() <= (f.n.buffers[b] ? f.n.buffers[b]->size() : 0), "buffer %zu: %zu bytes of %zu", b, p->buffers()[b].size(), f.n.buffers[b] ? f.n.buffers[b]->size() : 0);
        }
        if (flip()) { p.reset(); fa.release(&fa); fs.release(&fs); says(*cs, *ca, f.want, "copy after the source was released"); }
        else { c.reset(); says(fs, fa, f.want, "source after the copy was destroyed"); }
    }
    if (fa.release) { fa.release(&fa); fs.release(&fs); }
    t.check(0, 0);
}
static void mutated()
{
    LeakScope l;
    std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
    if (zoo::kinds()[k].nested) prune();
    Mask m = shape({8}, 3);
    if (m.empty()) prune();
    Source src; src.built(k, m, 0);
    sp::array& a = *src.a;
    const auto before = state(a);
    a.visit([&](const auto& t)
    {
        using T = std::remove_cvref_t<decltype(t)>;
        if constexpr (requires (T x) { x.pop_back(); x.erase(x.cbegin()); })
        {
            T x(t);
            T y(x);
            const std::size_t i = choose(std::uint32_t(m.size()));
            auto w = src.want;
            const int op = int(choose(7));
            note([&] { return fmt("%s[%zu] operation %d at %zu", src.name.c_str(), m.size(), op, i); });
            typename T::value_type last(t[t.size() - 1]);
            const std::string lt = src.want.back();
            switch (op)
            {
                case 0: x[i] = sp::nullval; w[i] = ar::null_(); break;
                case 1: x.pop_back(); w.pop_back(); break;
                case 2: x.erase(std::next(x.cbegin(), std::ptrdiff_t(i))); w.erase(w.begin() + std::ptrdiff_t(i)); break;
                case 3: x.insert(std::next(x.cbegin(), std::ptrdiff_t(i)), last); w.insert(w.begin() + std::ptrdiff_t(i), lt); break;
                case 4: x.push_back(last); w.push_back(lt); break;
                case 5: x[i] = last; w[i] = lt; break;
                case 6: x.resize(m.size() + i, last); w.resize(m.size() + i, lt); break;
            }
            VP_SAME(sc::shown(x), w, "mutated copy");
            VP_SAME(sc::shown(y), src.want, "copy of the mutated array");
            T z(x);
            VP_SAME(sc::shown(z), w, "copy of the mutated copy");
            x = y;
            VP_SAME(sc::shown(x), src.want, "mutated copy, assigned again");
            sp::array e(std::move(z));
            full(e, w, "copy of the mutated copy");
        }
    });
    VP_CHECK(state(a) == before, "source changed");
    shows(a, src.want, "source");
}
// view arrays, null arrays
static void typed()
{
    LeakScope l;
    const std::vector<std::string> words = {"", "abcd", "abcdefghijklm", "abcdefghijkl"};
    std::size_t n = choose(4); std::vector<std::string> v; Mask m; ar::Strs want;
    for (std::size_t i = 0; i < n; ++i) { v.push_back(pick(words)); m.push_back(!flip()); want.push_back(m[i] ? ar::text(v[i]) : ar::null_()); }
    std::optional<sp::string_view_array> a(std::in_place, v, m);
    std::optional<sp::string_view_array> c;
    switch (choose(3))
    {
        case 0: c.emplace(*a); break;
        case 1: c.emplace(std::vector<std::string>{"zzz"}); *c = *a; break;
        case 2: c.emplace(a->slice(0, n)); break;
    }
    VP_CHECK(*a == *c, "copies of a view array compare unequal");
    {
        auto [aa, as] = sp::get_arrow_structures(*a); auto [ca, cs] = sp::get_arrow_structures(*c);
        VP_CHECK(all_apart(*cs, *ca, *as, *aa), "shared memory");
        says(*as, *aa, want, "source");
    }
    if (flip()) { a.reset(); VP_SAME(sc::iterated(*c), want, "copy"); auto [ca, cs] = sp::get_arrow_structures(*c); says(*cs, *ca, want, "copy"); }
    else { c.reset(); VP_SAME(sc::iterated(*a), want, "source"); }
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("built", [] { built({9}, 2); });
        add("foreign", [] { foreign({5}, 2); });
        add("named", named);
        add("proxies of any format", proxies);
        add("mutated copies", mutated);
        add("view arrays", typed);
        add("large", [] { built({65, 130}, 0); }, {.thorough_only = true});
        add("all null patterns", [] { built({}, 5); }, {.thorough_only = true});
    });
}
