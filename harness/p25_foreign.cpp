// P25: reading an imported array touches only its own memory and never writes
#include "deep.hpp"
#include <sparrow/arrow_array_schema_proxy.hpp>
using namespace vp;
using namespace zu;

// a foreign array held for reading; afterwards nothing of it has changed and it is released exactly once
struct Held
{
    ar::Tracker t;
    ArrowArray fa{}; ArrowSchema fs{};
    std::string before;
    int la = 0, ls = 0;
    Held(const ar::FNode& n, const ar::Strs* want)
    {
        fa = n.array(t); fs = n.schema(t);
        la = t.live_arrays; ls = t.live_schemas;
        auto e = ar::validate(fs, fa);
        VP_CHECK(e.empty(), "harness built an invalid array: %s", e.c_str());
        if (want) VP_SAME(ar::decode_all(fs, fa), *want, "harness: elements of the foreign array");
        before = state(fs, fa);
    }
    Held(const Held&) = delete;
    void same()        // by pointer: the structures are those that were handed out
    {
        t.unchanged(); t.check(la, ls);
        VP_CHECK(state(fs, fa) == before, "foreign structures changed: %s, were %s", state(fs, fa).c_str(), before.c_str());
    }
    void done() { if (fa.release) fa.release(&fa); if (fs.release) fs.release(&fs); t.check(0, 0); }
};
static sp::array open(Held& h, int how)
{
    if (how == 0) return sp::array(std::move(h.fa), std::move(h.fs));
    if (how == 1) return sp::array(&h.fa, &h.fs);
    return sp::array(std::move(h.fa), &h.fs);
}
static void mark_moved(Held& h, int how) { if (how != 1) h.fa.release = nullptr; if (how == 0) h.fs.release = nullptr; }
// the buffers sparrow believes the array has are exactly those the format prescribes
static void exact(const sp::arrow_proxy& p, const ar::FNode& n, const std::string& path)
{
    const auto& b = p.buffers();
    VP_CHECK(b.size() == n.buffers.size(), "%s: %zu buffers, foreign array has %zu", path.c_str(), b.size(), n.buffers.size());
    for (std::size_t i = 0; i < b.size(); ++i)
    {
        VP_CHECK((b[i].data() != nullptr) <= n.buffers[i].has_value(), "%s: buffer %zu should be absent", path.c_str(), i);
        if (!n.buffers[i] || !b[i].data()) continue;
        VP_CHECK(b[i].size() == n.buffers[i]->size(), "%s: buffer %zu of %s (length %ld offset %ld) has %zu bytes, expected %zu", path.c_str(), i, n.format.c_str(), (long) n.length, (long) n.offset, b[i].size(), n.buffers[i]->size());
        VP_CHECK(std::equal(b[i].begin(), b[i].end(), n.buffers[i]->begin()), "%s: bytes of buffer %zu", path.c_str(), i);
    }
    VP_CHECK(p.format() == n.format, "%s: format", path.c_str());
    VP_CHECK(p.name().has_value() == n.name.has_value() && (!n.name || *p.name() == *n.name), "%s: name", path.c_str());
    VP_CHECK(p.length() == std::size_t(n.length) && p.offset() == std::size_t(n.offset), "%s: length or offset", path.c_str());
    VP_CHECK(p.null_count() == n.null_count, "%s: null count", path.c_str());
    VP_CHECK(p.n_buffers() == n.buffers.size() && p.n_children() == n.children.size() && p.children().size() == n.children.size(), "%s: counts", path.c_str());
    VP_CHECK(bool(p.dictionary()) == !n.dictionary.empty(), "%s: dictionary", path.c_str());
    for (std::size_t i = 0; i < n.children.size(); ++i) exact(p.children()[i], n.children[i], path + "/" + std::to_string(i));
    if (!n.dictionary.empty()) exact(*p.dictionary(), n.dictionary[0], path + "/dictionary");
}
static void add_tags(ar::FNode& n, int salt)
{
    static const char* const names[] = {"a", "", "a longer name than the small string buffer", "\xc3\xa9"};
    if (salt % 3) n.name = names[(salt + int(n.format.size())) % 4];
    for (auto& c : n.children) add_tags(c, salt + 1);
    for (auto& c : n.dictionary) add_tags(c, salt + 2);
}

// every format x mask x options x way to import: everything sparrow shows
static void reading(std::vector<std::size_t> big, std::size_t small, std::vector<std::size_t> offsets, std::vector<int> coffsets)
{
    LeakScope l;
    const std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    const auto& fk = zoo::fkinds()[k];
    Mask m = shape(big, small);
    auto o = choose_fopt(fk.has_validity, m, offsets, coffsets);
    const int how = int(choose(3));
    o.salt = how;
    note([&] { return "foreign " + fk.name + " valid " + show(m) + " " + show(o) + fmt(", import %d", how); });
    auto x = zoo::fmake(k, m, o);
    add_tags(x.n, int(k) + how);
    Held h(x.n, &x.want);
    {
        sp::array a = open(h, how); mark_moved(h, how);
        exact(sp::detail::array_access::get_arrow_proxy(a), x.n, "proxy");
        shows(a, x.want, "imported"); typed(a, x.want, "imported");
        const auto& p = sp::detail::array_access::get_arrow_proxy(a);
        says(p.schema(), p.array(), x.want, "imported");
        VP_CHECK(a == a, "array differs from itself");
        if (how == 1) h.same(); else h.t.unchanged();
        // an equal array of other memory, and one that differs in one element
        sp::array c(a);
        VP_CHECK(disjoint(sp::detail::array_access::get_arrow_proxy(c).array(), p.array()), "copy shares memory");
        VP_CHECK(c == a && a == c, "copy differs");
        full(c, x.want, "copy");
        if (how == 1) h.same(); else h.t.unchanged();
    }
    if (how == 1) h.same();
    h.done();
}
// two foreign arrays with the same elements but different representation are equal, and neither is written
static void comparing(std::size_t small)
{
    LeakScope l;
    const std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    const auto& fk = zoo::fkinds()[k];
    Mask m = shape({9}, small), m2 = m;
    auto o = few_fopt(fk.has_validity, m), o2 = few_fopt(fk.has_validity, m2);
    o2.salt = o.salt;
    const int differ = int(choose(std::uint32_t(m.size() + 1)));
    if (differ < int(m2.size())) { m2[std::size_t(differ)] = !m2[std::size_t(differ)]; if (o2.no_validity) prune(); }
    note([&] { return "foreign " + fk.name + " valid " + show(m) + " " + show(o) + " and valid " + show(m2) + " " + show(o2); });
    auto x = zoo::fmake(k, m, o), y = zoo::fmake(k, m2, o2);
    Held h(x.n, &x.want), g(y.n, &y.want);
    {
        sp::array a = open(h, 1), b = open(g, 0); mark_moved(g, 0);
        // nulls of different alternatives of a union: equality is not specified
        const bool loose = (fk.name.find("dense") != std::string::npos || fk.name.find("sparse") != std::string::npos) && ar::join(x.want).find('~') != std::string::npos;
        VP_CHECK((a == b) == (x.want == y.want) || (loose && x.want == y.want), "comparison of %s and %s", ar::join(x.want).c_str(), ar::join(y.want).c_str());
        VP_CHECK((b == a) == (a == b), "comparison is not symmetric");
        g.t.unchanged();
        h.same();
    }
    h.done(); g.done();
}
// histories of read operations: slices of slices, copies, exports of copies, element access
static void histories(std::size_t n, int depth, std::vector<std::size_t> offsets)
{
    LeakScope l;
    const std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    const auto& fk = zoo::fkinds()[k];
    Mask m(n, true);
    const int nul = int(choose(3));       // no null, one null, alternating
    if (nul == 1 && n) m[n - 1] = false;
    if (nul == 2) for (std::size_t i = 0; i < n; i += 2) m[i] = false;
    zoo::FOpt o; o.offset = pick(offsets); o.child_offset = int(o.offset) % 2; o.garbage = true; o.null_count_unknown = fk.has_validity && flip();
    note([&] { return "foreign " + fk.name + " valid " + show(m) + " " + show(o); });
    auto x = zoo::fmake(k, m, o);
    Held h(x.n, &x.want);
    {
        std::vector<std::unique_ptr<sp::array>> held;
        held.push_back(std::make_unique<sp::array>(open(h, 1)));
        ar::Strs w = x.want;
        for (int d = 0; d < depth; ++d)
        {
            sp::array& a = *held.back();
            const int op = int(choose(5));
            note([&] { return fmt("  operation %d", op); });
            if (op == 0 || op == 1)
            {
                const std::size_t len = w.size();
                // windows: drop the first, drop the last, the middle, none
                static const std::size_t lo[] = {1, 0, 1, 0}, hi[] = {0, 1, 1, 99};
                const std::size_t c = choose(4);
                std::size_t b = std::min(lo[c], len), e = c == 3 ? b : std::max(b, len - std::min(hi[c], len));
                held.push_back(std::make_unique<sp::array>(op == 0 ? a.slice_view(b, e) : a.slice(b, e)));
                w = sub(w, b, e);
            }
            else if (op == 2) held.push_back(std::make_unique<sp::array>(a));
            else if (op == 3)
            {
                for (std::size_t i = 0; i < w.size(); ++i) VP_CHECK(sc::canon(a[i]) == w[i] && sc::canon(a.at(i)) == w[i], "element %zu", i);
                VP_THROWS(std::out_of_range, a.at(w.size()));
                VP_CHECK(a == a, "differs from itself");
            }
            else held.push_back(std::make_unique<sp::array>(std::move(a)));
            sp::array& r = *held.back();
            shows(r, w, "result"); typed(r, w, "result");
            const auto& p = sp::detail::array_access::get_arrow_proxy(r);
            says(p.schema(), p.array(), w, "result");
            h.same();
        }
    }
    h.same();
    h.done();
}
// proxies of every format the library knows, readable through a layout or not
static void proxies(std::vector<std::size_t> big, std::size_t small, std::vector<std::size_t> offsets, std::vector<int> coffsets)
{
    LeakScope l;
    const std::size_t k = choose(std::uint32_t(zoo::pkinds().size()));
    const auto& fk = zoo::pkinds()[k];
    Mask m = shape(big, small);
    auto o = choose_fopt(fk.has_validity, m, offsets, coffsets);
    note([&] { return "foreign " + fk.name + " valid " + show(m) + " " + show(o); });
    auto x = zoo::pmake(k, m, o);
    add_tags(x.n, int(k));
    Held h(x.n, &x.want);
    {
        sp::arrow_proxy p(&h.fa, &h.fs);
        exact(p, x.n, "proxy");
        h.same();
        switch (choose(5))
        {
            case 0: { sp::arrow_proxy c(p); says(c.schema(), c.array(), x.want, "copy"); VP_CHECK(disjoint(c.array(), p.array()), "copy shares memory"); break; }
            case 1: { auto [b, e] = window(m.size()); sp::arrow_proxy v = p.slice_view(b, e); says(v.schema(), v.array(), sub(x.want, b, e), "view"); h.same(); break; }
            case 2: { auto [b, e] = window(m.size()); sp::arrow_proxy v = p.slice(b, e); says(v.schema(), v.array(), sub(x.want, b, e), "slice"); break; }
            case 3: { sp::arrow_proxy q(std::move(p)); exact(q, x.n, "moved"); says(q.schema(), q.array(), x.want, "moved"); h.same(); break; }
            default: { const auto f = p.flags(); VP_CHECK(f.size() == (x.n.flags & 2 ? 1u : 0u), "flags"); VP_CHECK(!p.is_created_with_sparrow(), "claimed to be of sparrow"); VP_CHECK(!p.owns_array() && !p.owns_schema(), "claims to own"); }
        }
        h.same();
    }
    h.same();
    h.done();
}
// parts that the format allows to be absent
static void absent()
{
    LeakScope l;
    const bool proxy = flip();
    const auto& ks = proxy ? zoo::pkinds() : zoo::fkinds();
    const std::size_t k = choose(std::uint32_t(ks.size()));
    const std::size_t n = choose(3);
    zoo::FOpt o; o.offset = n ? choose(2) * 3 : 0;
    if (ks[k].has_validity) { o.no_validity = true; o.null_count_unknown = flip(); }
    auto x = ks[k].make(Mask(n, true), o);
    const int nm = int(choose(3)), md = int(choose(3));
    static const std::int64_t flags[] = {0, 2, 1, 4, 7};
    const std::int64_t fl = flags[choose(5)];
    if (nm) x.n.name = nm == 1 ? "" : "n";
    if (md)
    {
        std::string s;
        if (md == 1) s.assign(4, '\0');
        else { auto i32 = [&](std::int32_t v) { s.append(reinterpret_cast<const char*>(&v), 4); }; i32(2); i32(3); s += "key"; i32(0); i32(2); s += "k2"; i32(5); s += "value"; }
        x.n.metadata = s;
    }
    x.n.flags = fl;
    note([&] { return "foreign " + ks[k].name + fmt(" of %zu elements, name %d metadata %d flags %ld ", n, nm, md, (long) fl) + show(o); });
    Held h(x.n, &x.want);
    {
        sp::arrow_proxy p(&h.fa, &h.fs);
        exact(p, x.n, "proxy");
        VP_CHECK(p.metadata().has_value() == (md != 0), "metadata");
        const auto f = p.flags();
        std::int64_t got = 0; for (auto v : f) got |= std::int64_t(v);
        VP_CHECK(got == fl, "flags %ld, foreign schema has %ld", (long) got, (long) fl);
        sp::arrow_proxy c(p), v = n ? p.slice_view(0, n - 1) : p.slice_view(0, 0);
        says(c.schema(), c.array(), x.want, "copy");
        says(v.schema(), v.array(), sub(x.want, 0, n ? n - 1 : 0), "view");
        h.same();
    }
    if (!proxy)
    {
        sp::array a = open(h, 1);
        shows(a, x.want, "imported"); typed(a, x.want, "imported");
        sp::array c(a); full(c, x.want, "copy");
        h.same();
    }
    h.same();
    h.done();
}
// arrays of no element whose buffers are absent altogether
static void strip(ar::FNode& n, bool children)
{
    for (auto& b : n.buffers) b.reset();
    if (children) { for (auto& c : n.children) if (c.length == 0 && c.offset == 0) strip(c, true); for (auto& c : n.dictionary) if (c.length == 0) strip(c, true); }
}
static void nothing()
{
    LeakScope l;
    const std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
    const bool children = flip();
    const int how = int(choose(3));
    zoo::FOpt o; o.no_validity = zoo::fkinds()[k].has_validity;
    auto x = zoo::fmake(k, Mask{}, o);
    strip(x.n, children);
    note([&] { return "foreign " + zoo::fkinds()[k].name + " of no element without buffers" + (children ? ", children too" : "") + fmt(", import %d", how); });
    Held h(x.n, nullptr);
    {
        sp::array a = open(h, how); mark_moved(h, how);
        shows(a, {}, "imported"); typed(a, {}, "imported");
        sp::array c(a);
        shows(c, {}, "copy");
        VP_CHECK(c == a, "copy differs");
        sp::array s = a.slice_view(0, 0), t = a.slice(0, 0);
        shows(s, {}, "view"); shows(t, {}, "slice");
        if (how == 1) h.same(); else h.t.unchanged();
    }
    if (how == 1) h.same();
    h.done();
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds(); zoo::pkinds();
        add("reading", [] { reading(thorough() ? std::vector<std::size_t>{8, 9, 17, 64, 65} : std::vector<std::size_t>{9, 65}, tier(2, 4), thorough() ? std::vector<std::size_t>{0, 1, 2, 5, 7, 8, 9, 64} : std::vector<std::size_t>{0, 3, 8}, thorough() ? std::vector<int>{0, 1, 3} : std::vector<int>{0, 1}); });
        add("comparing", [] { comparing(tier(2, 3)); });
        add("histories", [] { histories(tier(4, 5), tier(2, 3), thorough() ? std::vector<std::size_t>{0, 1, 7, 8} : std::vector<std::size_t>{0, 7}); });
        add("proxies", [] { proxies(thorough() ? std::vector<std::size_t>{8, 9, 17, 64} : std::vector<std::size_t>{9}, tier(2, 4), thorough() ? std::vector<std::size_t>{0, 1, 3, 7, 8, 64} : std::vector<std::size_t>{0, 3, 8}, {0, 1}); });
        add("absent", absent);
        add("nothing", nothing);
    });
}
