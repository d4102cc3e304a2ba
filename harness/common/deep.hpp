// Everything sparrow shows of an array, compared with the elements it must have
#pragma once
#include "src.hpp"

namespace zu
{
    // forwards, backwards and by index through the typed layout
    template <class T> void typed(const T& t, const ar::Strs& want, const char* what)
    {
        VP_CHECK(t.size() == want.size(), "%s: typed size %zu, expected %zu", what, std::size_t(t.size()), want.size());
        VP_SAME(sc::iterated(t), want, "%s: iterated", what);
        VP_SAME(sc::shown(t), want, "%s: typed operator[]", what);
        if constexpr (requires (const T& x) { --x.end(); })
        {
            ar::Strs r;
            for (auto it = t.end(); it != t.begin();) { --it; r.push_back(sc::canon(*it)); if (r.size() > want.size() + 2) break; }
            std::reverse(r.begin(), r.end());
            VP_SAME(r, want, "%s: iterated backwards", what);
        }
    }
    inline void typed(const sp::array& a, const ar::Strs& want, const char* what)
    {
        a.visit([&](const auto& t) { typed(t, want, what); });
    }
    // the array, its typed layout, its exported structures, a chosen slice (when win) and a copy
    inline void deep(sp::array& a, const ar::Strs& want, bool win = true)
    {
        full(a, want, "array");
        typed(a, want, "array");
        if (!win) return;
        const std::size_t n = want.size();
        const int mode = int(vp::choose(4));
        if (mode == 0)
        {
            sp::array c(a);
            full(c, want, "copy"); typed(c, want, "copy");
            VP_CHECK(c == a, "copy differs from its source");
            sp::array m(std::move(c));
            shows(m, want, "moved");
        }
        else if (mode == 3) { if (n) { sp::array c = a.slice(0, n / 2 + 1); c = a; full(c, want, "assigned"); typed(c, want, "assigned"); } }
        else
        {
            auto [b, e] = window(n);
            vp::note([&, b = b, e = e] { return vp::fmt("%s(%zu, %zu)", mode == 1 ? "slice_view" : "slice", b, e); });
            sp::array s = mode == 1 ? a.slice_view(b, e) : a.slice(b, e);
            full(s, sub(want, b, e), "slice"); typed(s, sub(want, b, e), "slice");
        }
        shows(a, want, "source afterwards");
    }
    // imports the node (by value or by pointers) and looks at it
    inline void imported(const ar::FNode& n, const ar::Strs& want, bool win = true)
    {
        ar::Tracker t;
        ArrowArray fa = n.array(t); ArrowSchema fs = n.schema(t);
        const int la = t.live_arrays, ls = t.live_schemas;
        {   // the reference itself must find the input valid
            auto e = ar::validate(fs, fa);
            VP_CHECK(e.empty(), "harness built an invalid array: %s", e.c_str());
            VP_SAME(ar::decode_all(fs, fa), want, "harness: elements of the foreign array");
        }
        const bool by_pointer = win && vp::flip();
        {
            sp::array a = by_pointer ? sp::array(&fa, &fs) : sp::array(std::move(fa), std::move(fs));
            deep(a, want, win);
            t.unchanged();
        }
        if (by_pointer) { t.check(la, ls); fa.release(&fa); fs.release(&fs); }
        t.check(0, 0);
    }
    inline ar::FNode fnode(std::string format, std::int64_t length, std::int64_t offset, std::vector<std::optional<ar::Bytes>> bufs, std::vector<ar::FNode> children = {})
    {
        ar::FNode n; n.format = std::move(format); n.length = length; n.offset = offset; n.buffers = std::move(bufs); n.children = std::move(children);
        return n;
    }
    // validity bits of n elements after off arbitrary ones; nullopt when all valid and absent
    inline std::optional<ar::Bytes> vbits(const Mask& m, std::size_t off, bool garbage, bool absent)
    {
        if (absent) return std::nullopt;
        Mask b(off, false); b.insert(b.end(), m.begin(), m.end());
        return ar::pack(b, garbage);
    }
    inline std::int64_t nulls(const Mask& m) { return std::int64_t(std::count(m.begin(), m.end(), false)); }
    inline bool all(const Mask& m) { return std::find(m.begin(), m.end(), false) == m.end(); }
    inline Mask mask_of(std::size_t n) { Mask m(n); for (std::size_t i = 0; i < n; ++i) m[i] = !vp::flip(); return m; }
    inline std::string list_text(const ar::Strs& c, std::size_t b, std::size_t n)
    {
        std::string r = "[";
        for (std::size_t i = 0; i < n; ++i) { if (i) r += ","; r += c[b + i]; }
        return r + "]";
    }
}
namespace zu
{
    inline std::size_t fkind(const char* name)
    {
        for (std::size_t i = 0; i < zoo::fkinds().size(); ++i) if (zoo::fkinds()[i].name == name) return i;
        vp::fail(__FILE__, __LINE__, std::string("no kind ") + name);
    }
    inline std::size_t kind(const char* name)
    {
        for (std::size_t i = 0; i < zoo::kinds().size(); ++i) if (zoo::kinds()[i].name == name) return i;
        vp::fail(__FILE__, __LINE__, std::string("no kind ") + name);
    }
    // foreign child of c values at the given offset
    inline zoo::FMade child(const char* k, const Mask& m, std::size_t offset = 0, int salt = 0, bool garbage = false)
    {
        zoo::FOpt o; o.offset = offset; o.salt = salt; o.garbage = garbage; o.child_offset = int(offset);
        return zoo::fmake(fkind(k), m, o);
    }
    // an array of sparrow with the given elements, obtained in different ways: 0 built, 1 owning slice of a larger one, 2 imported by value at an offset, 3 copy of an imported one
    inline zoo::Made flat(const char* built, const char* foreign, const Mask& m, int how, ar::Tracker& t, int salt = 0)
    {
        if (how == 0) return zoo::make(kind(built), m, salt);
        if (how == 1)
        {
            Mask l(m); l.insert(l.begin(), {true, false}); l.push_back(true);
            auto x = zoo::make(kind(built), l, salt);
            return {x.a.slice(2, 2 + m.size()), sub(x.want, 2, 2 + m.size())};
        }
        auto x = child(foreign, m, 2, salt, true);
        sp::array a(x.n.array(t), x.n.schema(t));
        if (how == 2) return {std::move(a), x.want};
        return {sp::array(a), x.want};
    }
}
