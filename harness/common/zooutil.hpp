// helpers shared by the harnesses that walk the catalogue
#pragma once
#include "zoo.hpp"

namespace zu
{
    namespace sp = sparrow;
    using zoo::Mask;
    inline ar::Strs sub(const ar::Strs& w, std::size_t s, std::size_t e) { return ar::Strs(w.begin() + std::ptrdiff_t(s), w.begin() + std::ptrdiff_t(e)); }
    // everything sparrow shows through operator[] and at(), and the size
    inline void shows(const sp::array& a, const ar::Strs& want, const char* what)
    {
        VP_CHECK(a.size() == want.size(), "%s: size %zu, expected %zu", what, a.size(), want.size());
        VP_CHECK(a.empty() == want.empty(), "%s: empty()", what);
        VP_SAME(sc::shown(a), want, "%s: elements", what);
    }
    // the exported structures are valid and say the same
    inline void says(const ArrowSchema& s, const ArrowArray& a, const ar::Strs& want, const char* what, ar::VOpt o = {})
    {
        auto e = ar::validate(s, a, o);
        VP_CHECK(e.empty(), "%s: invalid structure: %s", what, e.c_str());
        VP_SAME(ar::decode_all(s, a), want, "%s: exported", what);
    }
    inline void full(sp::array& a, const ar::Strs& want, const char* what, ar::VOpt o = {})
    {
        shows(a, want, what);
        auto [pa, ps] = sp::get_arrow_structures(a);
        says(*ps, *pa, want, what, o);
    }
    inline void release(ArrowArray& a, ArrowSchema& s)
    {
        VP_CHECK(a.release && s.release, "structure without release callback");
        a.release(&a); VP_CHECK(a.release == nullptr, "array not marked as released");
        s.release(&s); VP_CHECK(s.release == nullptr, "schema not marked as released");
    }
    // all buffer addresses of a structure, recursively
    inline void buffers(const ArrowArray& a, std::vector<const void*>& out)
    {
        for (std::int64_t i = 0; i < a.n_buffers; ++i) if (a.buffers[i]) out.push_back(a.buffers[i]);
        for (std::int64_t i = 0; i < a.n_children; ++i) buffers(*a.children[i], out);
        if (a.dictionary) buffers(*a.dictionary, out);
    }
    inline std::vector<const void*> buffers(const ArrowArray& a) { std::vector<const void*> r; buffers(a, r); return r; }
    inline bool disjoint(const ArrowArray& a, const ArrowArray& b)
    {
        auto x = buffers(a), y = buffers(b);
        for (auto p : x) for (auto q : y) if (p == q) return false;
        return true;
    }
    // text of the type of a schema: formats, names, metadata and flags, recursively
    inline std::string describe(const ArrowSchema& s)
    {
        std::string r = std::string(s.format) + "|" + (s.name ? s.name : "(null)") + "|" + (s.metadata ? s.metadata : "(null)") + "|" + std::to_string(s.flags) + "(";
        for (std::int64_t i = 0; i < s.n_children; ++i) r += describe(*s.children[i]) + ",";
        return r + (s.dictionary ? "D" + describe(*s.dictionary) : "") + ")";
    }
    // size, then mask: all masks for small sizes, boundary patterns otherwise
    inline Mask shape(std::vector<std::size_t> big, std::size_t small = 4)
    {
        std::size_t k = vp::choose(std::uint32_t(small + 1 + big.size()));
        std::size_t n = k <= small ? k : big[k - small - 1];
        return zoo::choose_mask(n, small);
    }
    // positions of interest in [0, n]: all when small
    inline std::vector<std::size_t> cuts(std::size_t n)
    {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i <= n; ++i)
            if (n <= 9 || i <= 1 || i >= n - 1 || i == 7 || i == 8 || i == 9 || i == 63 || i == 64 || i == 65) r.push_back(i);
        return r;
    }
    inline std::pair<std::size_t, std::size_t> window(std::size_t n)
    {
        auto c = cuts(n);
        std::size_t s = vp::choose(std::uint32_t(c.size())), e = s + vp::choose(std::uint32_t(c.size() - s));
        return {c[s], c[e]};
    }
    inline std::string show(const Mask& m) { std::string r; for (bool b : m) r += b ? '1' : '0'; return r; }
}
