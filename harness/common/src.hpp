// A source array of the catalogue: built by sparrow, or foreign structures imported by value / by pointer
#pragma once
#include "zooutil.hpp"
#include <optional>

namespace zu
{
    struct Source
    {
        ar::Tracker t;
        ar::FNode node;
        ArrowArray fa{}; ArrowSchema fs{};
        bool by_pointer = false, foreign = false;
        std::optional<sp::array> a;
        ar::Strs want;
        std::string name;
        bool exact_nulls = true;          // the null count of the source is known (not -1)
        bool has_validity = true;

        Source() = default;
        Source(const Source&) = delete;
        ~Source() noexcept(false)
        {
            a.reset();
            if (by_pointer) { if (fa.release) fa.release(&fa); if (fs.release) fs.release(&fs); }
            t.check(0, 0);
        }
        void built(std::size_t k, const Mask& m, int salt)
        {
            auto x = zoo::make(k, m, salt);
            a.emplace(std::move(x.a)); want = std::move(x.want); name = zoo::kinds()[k].name;
        }
        void import(std::size_t k, const Mask& m, const zoo::FOpt& o, int how)    // 0 by value, 1 pointers, 2 array by value and schema by pointer
        {
            foreign = true; name = "foreign " + zoo::fkinds()[k].name; exact_nulls = !o.null_count_unknown; has_validity = zoo::fkinds()[k].has_validity;
            auto f = zoo::fmake(k, m, o);
            node = std::move(f.n); want = std::move(f.want);
            fa = node.array(t); fs = node.schema(t);
            if (how == 0) { a.emplace(std::move(fa), std::move(fs)); fa.release = nullptr; fs.release = nullptr; }
            else if (how == 1) { a.emplace(&fa, &fs); by_pointer = true; }
            else { a.emplace(std::move(fa), &fs); fa.release = nullptr; by_pointer = true; }
        }
    };
    inline std::string show(const zoo::FOpt& o)
    {
        return vp::fmt("offset=%zu child_offset=%d%s%s%s salt=%d", o.offset, o.child_offset, o.no_validity ? " no-validity" : "", o.garbage ? " garbage" : "", o.null_count_unknown ? " null_count=-1" : "", o.salt);
    }
    inline std::string state(const ArrowSchema& s, const ArrowArray& a)      // everything observable in the C structures
    {
        std::string r = describe(s);
        std::function<void(const ArrowArray&)> f = [&](const ArrowArray& x)
        {
            r += vp::fmt("<%ld,%ld,%ld,%d:", (long) x.length, (long) x.offset, (long) x.null_count, x.release != nullptr);
            for (std::int64_t i = 0; i < x.n_buffers; ++i) r += vp::fmt("%p,", x.buffers[i]);
            for (std::int64_t i = 0; i < x.n_children; ++i) f(*x.children[i]);
            if (x.dictionary) f(*x.dictionary);
            r += ">";
        };
        f(a);
        return r;
    }
    inline std::string state(sp::array& a) { auto [x, s] = sp::get_arrow_structures(a); return state(*s, *x); }
    // a few representative combinations of the foreign options
    inline zoo::FOpt few_fopt(bool has_validity, const Mask& m)
    {
        bool all = std::find(m.begin(), m.end(), false) == m.end();
        zoo::FOpt o;
        switch (vp::choose(has_validity && all ? 4 : 3))
        {
            case 0: break;
            case 1: o.offset = 3; o.child_offset = 1; o.garbage = true; o.null_count_unknown = has_validity; break;
            case 2: o.offset = 1; o.garbage = true; o.salt = 1; break;
            default: o.offset = 2; o.child_offset = 1; o.no_validity = true; break;
        }
        return o;
    }
    // a foreign option chosen exhaustively among the given values
    inline zoo::FOpt choose_fopt(bool has_validity, Mask& m, std::vector<std::size_t> offsets, std::vector<int> child_offsets)
    {
        zoo::FOpt o;
        o.offset = vp::pick(offsets); o.child_offset = vp::pick(child_offsets); o.garbage = vp::flip();
        if (has_validity)
        {
            bool all = std::find(m.begin(), m.end(), false) == m.end();
            if (all) o.no_validity = vp::flip();
            o.null_count_unknown = vp::flip();
        }
        return o;
    }
}
