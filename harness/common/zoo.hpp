// The catalogue of sparrow arrays: every supported layout (and nestings of them) built through the
// public constructors, with the canonical text of the elements that the constructor arguments state.
#pragma once
#include "arrowref.hpp"
#include "spcanon.hpp"

namespace zoo
{
    namespace sp = sparrow;
    using Mask = std::vector<bool>;
    struct Made { sp::array a; ar::Strs want; };
    using Maker = std::function<Made(const Mask& valid, int salt)>;
    struct Kind { std::string name; Maker make; bool nested; };
    const std::vector<Kind>& kinds();
    // number of kinds usable in a quick exploration come first
    inline Made make(std::size_t k, const Mask& valid, int salt = 0) { return kinds()[k].make(valid, salt); }
    // masks of n bits: all of them for n <= limit, otherwise a fixed set of boundary patterns
    Mask choose_mask(std::size_t n, std::size_t limit = 4);

    // foreign (imported) catalogue: nodes with exactly sized buffers
    struct FMade { ar::FNode n; ar::Strs want; };
    struct FOpt
    {
        std::size_t offset = 0;          // parent offset
        bool no_validity = false;        // absent validity buffer (valid must be all true)
        bool garbage = false;            // padding bits set, hidden values under nulls, unused leading elements different
        bool null_count_unknown = false; // -1
        int child_offset = 0;            // offset of the children
        int salt = 0;
    };
    using FMaker = std::function<FMade(const Mask& valid, const FOpt& o)>;
    struct FKind { std::string name; FMaker make; bool nested; bool has_validity; };
    const std::vector<FKind>& fkinds();
    // arrays of formats that arrow_proxy handles but no layout class reads
    const std::vector<FKind>& pkinds();
    inline FMade pmake(std::size_t k, const Mask& valid, const FOpt& o = {}) { return pkinds()[k].make(valid, o); }
    inline FMade fmake(std::size_t k, const Mask& valid, const FOpt& o = {}) { return fkinds()[k].make(valid, o); }
}
