// P06: Arrow C structures are released exactly once, whatever the history
#include "src.hpp"
#include <memory>
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <sparrow/arrow_array_schema_proxy.hpp>
using namespace vp;
using namespace zu;

// ------------------------------------------------------------------ histories of arrays, raw structures and lenders
namespace
{
    struct Root                       // a foreign structure
    {
        ar::Tracker t;
        int na = 0, ns = 0;           // nodes
        bool array_alive = true, schema_alive = true;   // expected
        ArrowArray la{}; ArrowSchema ls{};              // lent memory (imports by pointer)
        bool array_lent = false, schema_lent = false;
    };
    using Roots = std::vector<int>;   // 2*r: the array of root r, 2*r+1: its schema
    struct Val                        // what a slot or a raw pair owns
    {
        ar::Strs want;
        Roots owned;                  // foreign structures released with it
        std::vector<int> borrows;     // tokens of the storage it refers to
        int token = 0;
        bool oa = true, os = true;    // owns its array / schema
        std::string how;
    };
    struct Slot { std::optional<sp::array> a; Val v; };
    struct Raw { bool full = false; ArrowArray a{}; ArrowSchema s{}; Val v; };

    struct World
    {
        std::vector<std::unique_ptr<Root>> roots;
        std::vector<Slot> slots{2};
        Raw raw;
        int next = 1;

        bool needed(int token) const  // something refers to that storage
        {
            auto in = [&](const Val& v) { return std::find(v.borrows.begin(), v.borrows.end(), token) != v.borrows.end(); };
            for (auto& s : slots) if (s.a && in(s.v)) return true;
            return raw.full && in(raw.v);
        }
        void drop(const Val& v)
        {
            for (int o : v.owned) { auto& r = *roots[std::size_t(o / 2)]; bool& b = o % 2 ? r.schema_alive : r.array_alive; VP_CHECK(b, "model"); b = false; }
        }
        // the content of slot i is about to be destroyed or overwritten
        void clear(std::size_t i) { auto& s = slots[i]; if (!s.a) return; if (needed(s.v.token)) prune(); drop(s.v); }
        void count(const ArrowArray& a, int& n) { ++n; for (std::int64_t i = 0; i < a.n_children; ++i) count(*a.children[i], n); if (a.dictionary) count(*a.dictionary, n); }

        void check()
        {
            for (std::size_t i = 0; i < roots.size(); ++i)
            {
                auto& r = *roots[i];
                r.t.check(r.array_alive ? r.na : 0, r.schema_alive ? r.ns : 0);
                r.t.unchanged();
            }
            for (auto& s : slots)
                if (s.a)
                {
                    full(*s.a, s.v.want, "slot");
                    VP_CHECK(sp::owns_arrow_array(*s.a) == s.v.oa, "owns_arrow_array is %d", int(!s.v.oa));
                    VP_CHECK(sp::owns_arrow_schema(*s.a) == s.v.os, "owns_arrow_schema is %d", int(!s.v.os));
                }
            if (raw.full) says(raw.s, raw.a, raw.v.want, "raw");
        }
        static void shape_of(Hash& h, const ArrowSchema& s, const ArrowArray& a)
        {
            h(std::string(s.format))(a.length)(a.offset)(a.null_count)(a.n_children)(a.n_buffers)(std::uint64_t(reinterpret_cast<std::uintptr_t>(a.release)))(std::uint64_t(reinterpret_cast<std::uintptr_t>(s.release)));
            for (std::int64_t i = 0; i < a.n_children; ++i) shape_of(h, *s.children[i], *a.children[i]);
            if (a.dictionary) shape_of(h, *s.dictionary, *a.dictionary);
        }
        std::uint64_t hash()
        {
            Hash h;
            // roots and tokens are numbered by the order in which the slots mention them
            std::vector<int> rn, tn;
            auto idx = [](std::vector<int>& v, int x) { auto it = std::find(v.begin(), v.end(), x); if (it != v.end()) return int(it - v.begin()); v.push_back(x); return int(v.size()) - 1; };
            auto val = [&](const Val& v)
            {
                for (auto& w : v.want) h(w);
                h(std::uint64_t(v.want.size()));
                for (int o : v.owned) h(idx(rn, o / 2) * 2 + o % 2);
                h(-1); h(idx(tn, v.token));
                for (int b : v.borrows) h(idx(tn, b));
                h(-2)(v.oa)(v.os)(v.how);
            };
            for (auto& s : slots)
            {
                h(s.a.has_value());
                if (s.a) { val(s.v); auto [a, c] = sp::get_arrow_structures(*s.a); shape_of(h, *c, *a); }
            }
            h(raw.full);
            if (raw.full) { val(raw.v); shape_of(h, raw.s, raw.a); }
            return h.h;
        }

        Val fresh_val(ar::Strs w, const char* how) { Val v; v.want = std::move(w); v.token = next++; v.how = how; return v; }

        void create_built(std::size_t i, std::size_t k)
        {
            clear(i);
            auto m = zoo::make(k, {true, false, true}, int(i));
            note([&] { return fmt("slot %zu = built %s", i, zoo::kinds()[k].name.c_str()); });
            if (slots[i].a) slots[i].a = std::move(m.a); else slots[i].a.emplace(std::move(m.a));
            slots[i].v = fresh_val(m.want, "built");
        }
        void create_import(std::size_t i, std::size_t k, int how)
        {
            clear(i);
            zoo::FOpt o; o.offset = 1; o.child_offset = 1; o.salt = int(i);
            auto f = zoo::fmake(k, zoo::fkinds()[k].has_validity ? Mask{true, false, true} : Mask{true, true, true}, o);
            note([&] { return fmt("slot %zu = imported %s (method %d)", i, zoo::fkinds()[k].name.c_str(), how); });
            roots.push_back(std::make_unique<Root>());
            Root& r = *roots.back();
            const int id = int(roots.size()) - 1;
            r.la = f.n.array(r.t); r.ls = f.n.schema(r.t); count(r.la, r.na); r.ns = r.na;
            Val v = fresh_val(f.want, how == 0 ? "import" : how == 1 ? "import*" : "import/*");
            std::optional<sp::array> x;
            if (how == 0) { x.emplace(std::move(r.la), std::move(r.ls)); v.owned = {2 * id, 2 * id + 1}; r.la.release = nullptr; r.ls.release = nullptr; }
            else if (how == 1) { x.emplace(&r.la, &r.ls); v.oa = v.os = false; r.array_lent = r.schema_lent = true; }
            else { x.emplace(std::move(r.la), &r.ls); v.owned = {2 * id}; v.os = false; r.schema_lent = true; r.la.release = nullptr; }
            if (slots[i].a) slots[i].a = std::move(*x); else slots[i].a.emplace(std::move(*x));
            slots[i].v = v;
        }
        void destroy(std::size_t i)
        {
            if (!slots[i].a) prune();
            clear(i);
            note([&] { return fmt("destroy slot %zu", i); });
            slots[i].a.reset(); slots[i].v = {};
        }
        void copy(std::size_t i, bool construct)      // slot 1-i (or itself) = copy of slot i
        {
            if (!slots[i].a) prune();
            const std::size_t j = construct ? 1 - i : (flip() ? i : 1 - i);
            if (j != i) clear(j); else if (needed(slots[i].v.token)) prune();
            const void* storage = sp::get_arrow_array(*slots[i].a)->private_data;
            note([&] { return fmt("slot %zu = %s of slot %zu", j, construct ? "copy construction" : "copy assignment", i); });
            if (construct) { slots[j].a.reset(); slots[j].a.emplace(*slots[i].a); }
            else { if (!slots[j].a) slots[j].a.emplace(); sp::array& d = *slots[j].a; const sp::array& s = *slots[i].a; d = s; }
            if (j != i) slots[j].v = fresh_val(slots[i].v.want, "copy");
            else
            {
                // assigning an array to itself leaves it as it was, or makes it a copy of what it was
                const void* now = sp::get_arrow_array(*slots[i].a)->private_data;
                if (now != storage) { Val v = fresh_val(slots[i].v.want, "copy"); drop(slots[i].v); slots[i].v = v; }
            }
        }
        void move(std::size_t i, bool construct)
        {
            if (!slots[i].a) prune();
            const std::size_t j = 1 - i;
            clear(j);
            note([&] { return fmt("slot %zu = %s of slot %zu", j, construct ? "move construction" : "move assignment", i); });
            if (construct) { slots[j].a.reset(); slots[j].a.emplace(std::move(*slots[i].a)); }
            else { if (!slots[j].a) slots[j].a.emplace(); *slots[j].a = std::move(*slots[i].a); }
            slots[i].a.reset();       // a moved-from array can be destroyed
            slots[j].v = slots[i].v; slots[i].v = {};
        }
        void slice(std::size_t i, bool view)
        {
            if (!slots[i].a) prune();
            const std::size_t n = slots[i].v.want.size();
            if (n == 0) prune();
            const std::size_t j = view ? 1 - i : (flip() ? i : 1 - i);
            if (j != i || !view) clear(j);
            const std::size_t s = 1, e = n;
            note([&] { return fmt("slot %zu = slot %zu.%s(%zu, %zu)", j, i, view ? "slice_view" : "slice", s, e); });
            Val v = fresh_val(sub(slots[i].v.want, s, e), view ? "view" : "slice");
            if (view) { v.borrows = slots[i].v.borrows; v.borrows.push_back(slots[i].v.token); }
            sp::array x = view ? slots[i].a->slice_view(s, e) : slots[i].a->slice(s, e);
            v.oa = sp::owns_arrow_array(x); v.os = sp::owns_arrow_schema(x);
            if (!view) VP_CHECK(v.oa && v.os, "a slice owns its structures");
            if (slots[j].a) slots[j].a = std::move(x); else slots[j].a.emplace(std::move(x));
            slots[j].v = v;
        }
        void extract(std::size_t i)
        {
            auto& s = slots[i];
            if (!s.a || raw.full) prune();
            note([&] { return fmt("extract slot %zu", i); });
            if (!s.v.oa || !s.v.os)
            {
                VP_THROWS(std::runtime_error, (void) sp::extract_arrow_structures(std::move(*s.a)));
                cover("extraction refused");
                return;
            }
            if (flip())
            {
                auto [x, c] = sp::extract_arrow_structures(std::move(*s.a));
                raw.a = x; raw.s = c;
            }
            else
            {
                raw.a = sp::extract_arrow_array(std::move(*s.a));
                raw.s = sp::extract_arrow_schema(std::move(*s.a));
            }
            if (flip()) s.a.reset();
            else { *s.a = sp::array(); s.a.reset(); }         // what is left can be assigned to or destroyed
            raw.full = true; raw.v = s.v; s.v = {};
        }
        void extract_half(std::size_t i, bool array)          // one structure is extracted, the array is destroyed with the other one
        {
            auto& s = slots[i];
            if (!s.a || !(array ? s.v.oa : s.v.os)) prune();
            if (needed(s.v.token)) prune();
            note([&] { return fmt("extract only the %s of slot %zu, destroy the slot, then release", array ? "array" : "schema", i); });
            if (array)
            {
                ArrowArray x = sp::extract_arrow_array(std::move(*s.a));
                s.a.reset();
                for (int o : s.v.owned) if (o % 2) roots[std::size_t(o / 2)]->schema_alive = false;
                for (auto& r : roots) r->t.check(r->array_alive ? r->na : 0, r->schema_alive ? r->ns : 0);
                VP_CHECK(x.release, "extracted array released");
                x.release(&x);
                for (int o : s.v.owned) if (o % 2 == 0) roots[std::size_t(o / 2)]->array_alive = false;
            }
            else
            {
                ArrowSchema x = sp::extract_arrow_schema(std::move(*s.a));
                s.a.reset();
                for (int o : s.v.owned) if (o % 2 == 0) roots[std::size_t(o / 2)]->array_alive = false;
                for (auto& r : roots) r->t.check(r->array_alive ? r->na : 0, r->schema_alive ? r->ns : 0);
                VP_CHECK(x.release, "extracted schema released");
                x.release(&x);
                for (int o : s.v.owned) if (o % 2) roots[std::size_t(o / 2)]->schema_alive = false;
            }
            s.v = {};
        }
        void release_raw()
        {
            if (!raw.full || needed(raw.v.token)) prune();
            note([] { return std::string("release the raw structures"); });
            if (flip()) { release(raw.a, raw.s); }
            else { raw.s.release(&raw.s); VP_CHECK(!raw.s.release, "schema not marked"); raw.a.release(&raw.a); VP_CHECK(!raw.a.release, "array not marked"); }
            drop(raw.v); raw = {};
        }
        void import_raw(std::size_t i, bool ptr)
        {
            if (!raw.full) prune();
            clear(i);
            if (!ptr && needed(raw.v.token)) prune();
            note([&] { return fmt("slot %zu = the raw structures (%s)", i, ptr ? "by pointer" : "by value"); });
            if (ptr)
            {
                sp::array x(&raw.a, &raw.s);
                Val v = fresh_val(raw.v.want, "raw*"); v.oa = v.os = false; v.borrows = raw.v.borrows; v.borrows.push_back(raw.v.token);
                if (slots[i].a) slots[i].a = std::move(x); else slots[i].a.emplace(std::move(x));
                slots[i].v = v;
            }
            else
            {
                sp::array x(std::move(raw.a), std::move(raw.s));
                if (slots[i].a) slots[i].a = std::move(x); else slots[i].a.emplace(std::move(x));
                slots[i].v = raw.v; raw = {};
            }
        }
        // slot i becomes an array that owns what it was as a child or a dictionary
        void wrap(std::size_t i, int kind)
        {
            auto& s = slots[i];
            if (!s.a || s.v.want.size() < 2 || s.v.how.size() > 24) prune();
            if (needed(s.v.token)) prune();
            auto& other = slots[1 - i];
            const bool two = kind == 1;
            if (two && (!other.a || other.v.want.size() < 2 || other.v.how.size() > 24 || needed(other.v.token))) prune();
            const std::size_t n = std::min<std::size_t>(s.v.want.size(), 2);
            const bool can = s.v.oa && s.v.os && (!two || (other.v.oa && other.v.os));
            note([&] { return fmt("wrap slot %zu (%d)", i, kind); });
            ar::Strs w = s.v.want;
            std::optional<sp::array> r;
            auto attempt = [&](auto&& f)
            {
                if (can) f();
                else { VP_THROWS(std::runtime_error, f()); cover("wrapping refused"); }
            };
            switch (kind)
            {
                case 0:     // fixed size list of two elements
                    attempt([&] { r.emplace(sp::array(sp::fixed_sized_list_array(n, std::move(*s.a)))); });
                    { ar::Strs l; for (std::size_t k = 0; k + n <= w.size(); k += n) { std::string t = "["; for (std::size_t q = 0; q < n; ++q) t += (q ? "," : "") + w[k + q]; l.push_back(t + "]"); } w = l; }
                    break;
                case 1:     // struct of both slots
                {
                    const std::size_t len = std::min(s.v.want.size(), other.v.want.size());
                    if (s.v.want.size() != other.v.want.size()) prune();
                    std::vector<sp::array> ch; ch.push_back(std::move(*s.a)); ch.push_back(std::move(*other.a));
                    bool thrown = false;
                    try { r.emplace(sp::array(sp::struct_array(std::move(ch)))); } catch (const std::runtime_error&) { thrown = true; }
                    VP_CHECK(thrown == !can, "struct of arrays %s", thrown ? "refused" : "that are not owned accepted");
                    if (thrown)
                    {
                        cover("wrapping refused");
                        // the arrays are still in the vector, as they were
                        VP_CHECK(ch.size() == 2, "children lost");
                        s.a.emplace(std::move(ch[0])); other.a.emplace(std::move(ch[1]));
                        return;
                    }
                    ar::Strs l; for (std::size_t k = 0; k < len; ++k) l.push_back("{" + s.v.want[k] + "," + other.v.want[k] + "}");
                    w = l;
                    break;
                }
                case 2:     // dictionary
                    attempt([&] { r.emplace(sp::array(sp::dictionary_encoded_array<std::uint32_t>(sp::u8_buffer<std::uint32_t>{1u, 0u, 1u}, std::move(*s.a)))); });
                    w = {w[1], w[0], w[1]};
                    break;
                case 3:     // list
                {
                    attempt([&] { r.emplace(sp::array(sp::list_array(std::move(*s.a), sp::list_array::offset_from_sizes(std::vector<std::size_t>{1, 0, n - 1})))); });
                    w = {"[" + w[0] + "]", "[]", n == 2 ? "[" + w[1] + "]" : "[]"};
                    break;
                }
                case 4:     // run-end encoded
                    r.emplace(sp::array(sp::run_end_encoded_array(sp::array(sp::primitive_array<std::int32_t>({2, 3})), s.a->slice(0, 2))));   // of a copy
                    w = {w[0], w[0], w[1]};
                    break;
            }
            if (!r) return;
            Val v = fresh_val(w, "");
            v.how = "w" + std::to_string(kind) + s.v.how + (two ? "+" + other.v.how : std::string());
            if (kind == 4) { drop(s.v); v.owned = {}; v.borrows = {}; }
            else
            {
                v.owned = s.v.owned; v.borrows = s.v.borrows;
                if (two) { v.owned.insert(v.owned.end(), other.v.owned.begin(), other.v.owned.end()); v.borrows.insert(v.borrows.end(), other.v.borrows.begin(), other.v.borrows.end()); }
            }
            if (two) { other.a.reset(); other.v = {}; }
            s.a.reset();
            s.a.emplace(std::move(*r)); s.v = v;
        }
        void finish()
        {
            check();
            // views first, then what they refer to
            for (int round = 0; round < 3; ++round)
            {
                for (auto& s : slots) if (s.a && !needed(s.v.token)) { drop(s.v); s.a.reset(); s.v = {}; }
                if (raw.full && !needed(raw.v.token)) { release(raw.a, raw.s); drop(raw.v); raw = {}; }
            }
            for (auto& s : slots) VP_CHECK(!s.a, "model: left over");
            check();
            for (auto& r : roots)
            {
                if (r->array_lent) { VP_CHECK(r->la.release, "a lent array was released"); r->la.release(&r->la); r->array_alive = false; }
                if (r->schema_lent) { VP_CHECK(r->ls.release, "a lent schema was released"); r->ls.release(&r->ls); r->schema_alive = false; }
            }
            check();
            for (auto& r : roots) r->t.check(0, 0);
        }
    };
    std::vector<std::size_t> pick_kinds(bool foreign_ones, std::initializer_list<const char*> names)
    {
        std::vector<std::size_t> r;
        for (auto n : names)
        {
            if (foreign_ones) { for (std::size_t k = 0; k < zoo::fkinds().size(); ++k) if (zoo::fkinds()[k].name == n) r.push_back(k); }
            else for (std::size_t k = 0; k < zoo::kinds().size(); ++k) if (zoo::kinds()[k].name == n) r.push_back(k);
        }
        VP_CHECK(r.size() == names.size(), "harness: unknown kind");
        return r;
    }
}
static void history(std::uint32_t depth, std::initializer_list<const char*> built, std::initializer_list<const char*> foreign)
{
    LeakScope l;
    World w;
    auto bk = pick_kinds(false, built), fk = pick_kinds(true, foreign);
    const std::uint32_t creations = std::uint32_t(bk.size() + 3 * fk.size());
    auto create = [&](std::size_t slot, std::uint32_t c)
    {
        if (c < bk.size()) w.create_built(slot, bk[c]);
        else w.create_import(slot, fk[(c - bk.size()) / 3], int((c - bk.size()) % 3));
    };
    create(0, choose(creations));
    w.check();
    for (std::uint32_t d = depth; d-- > 0;)
    {
        fresh(w.hash(), d + 1);
        const std::size_t i = choose(2);
        switch (choose(17))
        {
            case 0: create(i, choose(creations)); break;
            case 1: w.destroy(i); break;
            case 2: w.copy(i, true); break;
            case 3: w.copy(i, false); break;
            case 4: w.move(i, true); break;
            case 5: w.move(i, false); break;
            case 6: w.slice(i, false); break;
            case 7: w.slice(i, true); break;
            case 8: w.extract(i); break;
            case 9: w.extract_half(i, true); break;
            case 10: w.extract_half(i, false); break;
            case 11: if (i == 0) w.release_raw(); else prune(); break;
            case 12: w.import_raw(i, false); break;
            case 13: w.import_raw(i, true); break;
            case 14: w.wrap(i, int(choose(5))); break;
            case 15: { if (!w.slots[i].a) prune(); sp::array x(std::move(*w.slots[i].a)); std::swap(x, *w.slots[i].a); std::swap(*w.slots[i].a, x); w.slots[i].a = std::move(x); note([&] { return fmt("swap slot %zu with a moved-from array, twice", i); }); break; }
            case 16: { if (i || !w.slots[0].a || !w.slots[1].a) prune(); std::swap(w.slots[0].a, w.slots[1].a); std::swap(w.slots[0].v, w.slots[1].v); note([] { return std::string("swap the slots"); }); break; }
        }
        w.check();
    }
    w.finish();
}

// ------------------------------------------------------------------ consumers that follow the C data interface: children moved out of an exported parent
static ArrowArray* child_at(ArrowArray& a, std::size_t i) { return i < std::size_t(a.n_children) ? a.children[i] : a.dictionary; }
static ArrowSchema* child_at(ArrowSchema& a, std::size_t i) { return i < std::size_t(a.n_children) ? a.children[i] : a.dictionary; }
static std::size_t parts(const ArrowArray& a) { return std::size_t(a.n_children) + (a.dictionary ? 1 : 0); }
static void consumer()
{
    LeakScope l;
    ar::Tracker t;
    {
        ArrowArray a; ArrowSchema s; std::string name;
        const bool foreign = flip();
        if (!foreign)
        {
            std::size_t k = choose(std::uint32_t(zoo::kinds().size()));
            auto m = zoo::make(k, {true, false, true}); name = zoo::kinds()[k].name;
            sp::array x = flip() ? std::move(m.a) : m.a.slice(1, 3);
            std::tie(a, s) = sp::extract_arrow_structures(std::move(x));
        }
        else      // a copy of a foreign structure
        {
            std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
            auto m = zoo::fmake(k, {true, false == (k == 0), true}, {}); name = zoo::fkinds()[k].name;
            sp::array x(m.n.array(t), m.n.schema(t));
            sp::array y(x);
            std::tie(a, s) = sp::extract_arrow_structures(std::move(y));
        }
        note([&] { return name; });
        if (parts(a) == 0) prune();
        // moves a subset of the children of the array, and of the schema; possibly from the grandchildren
        struct Moved { ArrowArray a{}; ArrowSchema s{}; bool ha = false, hs = false; ar::Strs want; };
        std::vector<Moved> moved;
        std::function<void(ArrowArray&, ArrowSchema&, int)> take = [&](ArrowArray& pa, ArrowSchema& ps, int depth)
        {
            for (std::size_t i = 0; i < parts(pa); ++i)
            {
                ArrowArray* ca = child_at(pa, i); ArrowSchema* cs = child_at(ps, i);
                const bool ma = flip(), ms = flip();
                if (!ma && !ms) { if (depth < 1) take(*ca, *cs, depth + 1); continue; }
                Moved m;
                if (ma && ms) m.want = ar::decode_all(*cs, *ca);
                if (ma) { m.a = *ca; ca->release = nullptr; m.ha = true; }
                if (ms) { m.s = *cs; cs->release = nullptr; m.hs = true; }
                note([&] { return fmt("depth %d part %zu moved out: %s%s", depth, i, ma ? "array " : "", ms ? "schema" : ""); });
                moved.push_back(m);
            }
        };
        take(a, s, 0);
        auto use = [&](Moved& m)
        {
            if (m.ha && m.hs)
            {
                VP_SAME(ar::decode_all(m.s, m.a), m.want, "child moved out of its parent");
                if (flip()) { release(m.a, m.s); }
                else { sp::array x(std::move(m.a), std::move(m.s)); shows(x, m.want, "import of a child moved out of its parent"); }
            }
            else if (m.ha) m.a.release(&m.a);
            else m.s.release(&m.s);
        };
        if (flip()) { release(a, s); for (auto& m : moved) use(m); }
        else { for (auto& m : moved) use(m); release(a, s); }
    }
    t.check(0, 0);
}

// ------------------------------------------------------------------ children and dictionaries of proxies
namespace
{
    ar::FNode leaf(int v)
    {
        ar::FNode n; n.format = "i"; n.length = 3; n.null_count = 0;
        n.buffers = {std::nullopt, ar::raw(std::vector<std::int32_t>{v, v + 1, v + 2})};
        return n;
    }
    struct Lent { ar::Tracker t; ArrowArray a{}; ArrowSchema s{}; bool alive = true; };
    int first_of(const ArrowArray& a) { return static_cast<const std::int32_t*>(a.buffers[1])[0]; }

    struct Child { int value; int root; };     // root: index in the lent structures, -1 when its memory is sparrow's
    struct PWorld
    {
        std::vector<std::unique_ptr<Lent>> lent;
        std::vector<int> owners;               // of each lent structure: 1 lent by pointer, 2 given by value, 0 gone
        std::vector<Child> children;
        std::optional<Child> dict;
        std::optional<sp::arrow_proxy> p;
        int next = 10;

        int lend(int owner) { auto x = std::make_unique<Lent>(); x->a = leaf(next).array(x->t); x->s = leaf(next).schema(x->t); next += 10; lent.push_back(std::move(x)); owners.push_back(owner); return int(lent.size()) - 1; }
        void gone(const Child& c) { if (c.root >= 0 && owners[std::size_t(c.root)] == 2) owners[std::size_t(c.root)] = 0; }
        void gone_all() { for (auto& c : children) gone(c); if (dict) gone(*dict); }
        void check()
        {
            for (std::size_t i = 0; i < lent.size(); ++i) { lent[i]->t.check(owners[i] != 0, owners[i] != 0); lent[i]->t.unchanged(); }
            if (!p) return;
            VP_CHECK(p->n_children() == children.size() && p->children().size() == children.size(), "%zu children", children.size());
            VP_CHECK(p->schema().n_children == std::int64_t(children.size()), "children of the schema");
            for (std::size_t i = 0; i < children.size(); ++i)
            {
                VP_CHECK(first_of(*p->array().children[i]) == children[i].value, "child %zu", i);
                VP_CHECK(std::string(p->schema().children[i]->format) == "i", "schema of child %zu", i);
                VP_CHECK(p->children()[i].length() == 3, "length of the proxy of child %zu", i); VP_CHECK(p->children()[i].buffers().size() == 2, "%zu buffers in the proxy of child %zu", p->children()[i].buffers().size(), i); VP_CHECK(p->children()[i].buffers()[1].data() == p->array().children[i]->buffers[1], "proxy of child %zu", i);
            }
            VP_CHECK((p->array().dictionary != nullptr) == dict.has_value() && (p->dictionary() != nullptr) == dict.has_value() && (p->schema().dictionary != nullptr) == dict.has_value(), "dictionary");
            if (dict) VP_CHECK(first_of(*p->array().dictionary) == dict->value && first_of(p->dictionary()->array()) == dict->value, "value of the dictionary");
        }
        std::uint64_t hash()
        {
            Hash h;
            for (auto& c : children) h(c.root < 0 ? 0 : owners[std::size_t(c.root)]);
            h(-1)(dict ? (dict->root < 0 ? 0 : owners[std::size_t(dict->root)]) : 9)(p->array().offset)(p->array().length);
            return h.h;
        }
        void now_sparrows() { gone_all(); for (auto& c : children) c.root = -1; if (dict) dict->root = -1; }   // a copy replaced the original
    };
}
static void proxy_children(std::uint32_t depth)
{
    LeakScope l;
    PWorld w;
    {
        std::vector<sp::array> ch;
        const std::size_t n0 = choose(3);
        for (std::size_t i = 0; i < n0; ++i) { const int v = w.next; w.next += 10; ch.push_back(sp::array(sp::primitive_array<std::int32_t>({v, v + 1, v + 2}))); w.children.push_back({v, -1}); }
        if (n0 == 0)
        {
            sp::array e(sp::primitive_array<std::int32_t>({7, 8, 9}));       // a leaf becomes a parent
            auto [a, s] = sp::extract_arrow_structures(std::move(e));
            w.p.emplace(std::move(a), std::move(s));
        }
        else
        {
            auto [a, s] = sp::extract_arrow_structures(sp::array(sp::struct_array(std::move(ch))));
            w.p.emplace(std::move(a), std::move(s));
        }
    }
    w.check();
    for (std::uint32_t d = depth; d-- > 0;)
    {
        fresh(w.hash(), d + 1);
        switch (choose(12))
        {
            case 0: case 1:
            {
                const bool ptr = flip();
                if (flip())
                {
                    note([&] { return fmt("add_child %s", ptr ? "by pointer" : "by value"); });
                    const int r = w.lend(ptr ? 1 : 2); Lent& x = *w.lent[std::size_t(r)];
                    if (ptr) w.p->add_child(&x.a, &x.s); else w.p->add_child(std::move(x.a), std::move(x.s));
                    w.children.push_back({first_of(*w.p->array().children[w.children.size()]), r});
                    w.children.back().value = (r >= 0 ? w.next - 10 : 0);
                }
                else
                {
                    note([&] { return fmt("add_children (2) %s", ptr ? "by pointer" : "by value"); });
                    const int r0 = w.lend(ptr ? 1 : 2), r1 = w.lend(ptr ? 1 : 2);
                    Lent &x = *w.lent[std::size_t(r0)], &y = *w.lent[std::size_t(r1)];
                    if (ptr) w.p->add_children(std::vector<sp::arrow_array_and_schema_pointers>{{&x.a, &x.s}, {&y.a, &y.s}});
                    else w.p->add_children(std::vector<sp::arrow_array_and_schema>{{x.a, x.s}, {y.a, y.s}});
                    w.children.push_back({w.next - 20, r0}); w.children.push_back({w.next - 10, r1});
                }
                break;
            }
            case 2:
            {
                if (w.children.empty()) prune();
                const std::size_t i = choose(std::uint32_t(w.children.size())); const bool ptr = flip();
                note([&] { return fmt("set_child(%zu) %s", i, ptr ? "by pointer" : "by value"); });
                const int r = w.lend(ptr ? 1 : 2); Lent& x = *w.lent[std::size_t(r)];
                if (ptr) w.p->set_child(i, &x.a, &x.s); else w.p->set_child(i, std::move(x.a), std::move(x.s));
                w.gone(w.children[i]); w.children[i] = {w.next - 10, r};
                break;
            }
            case 3:
            {
                const std::size_t n = choose(std::uint32_t(w.children.size() + 1));
                note([&] { return fmt("pop_children(%zu)", n); });
                w.p->pop_children(n);
                for (std::size_t i = 0; i < n; ++i) { w.gone(w.children.back()); w.children.pop_back(); }
                break;
            }
            case 4:
            {
                note([] { return std::string("pop too many children"); });
                VP_THROWS(sp::arrow_proxy_exception, w.p->pop_children(w.children.size() + 1));
                break;
            }
            case 5:
            {
                note([] { return std::string("set_dictionary"); });
                const int r = w.lend(2); Lent& x = *w.lent[std::size_t(r)];
                w.p->set_dictionary(&x.a, &x.s);
                if (w.dict) w.gone(*w.dict);
                w.dict = Child{w.next - 10, r};
                break;
            }
            case 6:
            {
                note([] { return std::string("copy, keep the copy"); });
                std::optional<sp::arrow_proxy> q(std::in_place, *w.p);
                w.check();
                if (flip()) { w.p.reset(); w.p.emplace(std::move(*q)); } else { *w.p = std::as_const(*q); }
                w.now_sparrows();
                w.check(); q.reset();
                break;
            }
            case 7:
            {
                note([] { return std::string("copy, keep the original"); });
                { sp::arrow_proxy q(*w.p); w.check(); sp::arrow_proxy r(std::move(q)); }
                break;
            }
            case 8:
            {
                note([] { return std::string("move"); });
                if (flip()) { sp::arrow_proxy q(std::move(*w.p)); w.p.reset(); w.p.emplace(std::move(q)); }
                else
                {
                    auto [a, s] = sp::extract_arrow_structures(sp::array(sp::primitive_array<std::int32_t>({1})));
                    sp::arrow_proxy q(std::move(a), std::move(s));
                    q = std::move(*w.p); w.p.reset(); w.p.emplace(std::move(q));
                }
                break;
            }
            case 9:
            {
                note([] { return std::string("views and slice views come and go"); });
                { auto v = w.p->view(); auto x = w.p->slice_view(0, w.p->length()); auto y = x.view(); auto z = std::move(x);
                  VP_CHECK(!v.owns_array() && !v.owns_schema(), "a view owns nothing");
                  VP_THROWS(std::runtime_error, (void) v.extract_array()); VP_THROWS(std::runtime_error, (void) v.extract_schema()); }
                break;
            }
            case 10:
            {
                note([] { return std::string("extract and import again"); });
                ArrowArray a; ArrowSchema s;
                if (flip()) { a = w.p->extract_array(); s = w.p->extract_schema(); } else { s = w.p->extract_schema(); a = w.p->extract_array(); }
                w.p.reset();
                PWorld* q = &w; (void) q;
                if (flip()) { w.p.emplace(std::move(a), std::move(s)); }
                else { sp::arrow_proxy t(&a, &s); VP_CHECK(t.n_children() == w.children.size(), "view"); w.p.emplace(std::move(a), std::move(s)); }
                break;
            }
            case 11:
            {
                note([] { return std::string("slice"); });
                { auto q = w.p->slice(0, w.p->length()); w.check(); }
                break;
            }
        }
        w.check();
    }
    // the end: destroyed, or extracted and released
    if (flip()) w.p.reset();
    else { auto a = w.p->extract_array(); auto s = w.p->extract_schema(); w.p.reset(); release(a, s); }
    w.gone_all(); w.children.clear(); w.dict.reset();
    w.check();
    for (std::size_t i = 0; i < w.lent.size(); ++i)
        if (w.owners[i] == 1) { VP_CHECK(w.lent[i]->a.release && w.lent[i]->s.release, "lent child released"); w.lent[i]->a.release(&w.lent[i]->a); w.lent[i]->s.release(&w.lent[i]->s); w.owners[i] = 0; }
    w.check();
}
// proxies over foreign structures refuse every change and are left as they were
static void refused()
{
    LeakScope l;
    ar::Tracker t;
    {
        std::size_t k = choose(std::uint32_t(zoo::fkinds().size()));
        auto f = zoo::fmake(k, {true, true}, {});
        ArrowArray a = f.n.array(t); ArrowSchema s = f.n.schema(t);
        note([&] { return zoo::fkinds()[k].name; });
        {
            sp::arrow_proxy p = flip() ? sp::arrow_proxy(&a, &s) : sp::arrow_proxy(std::move(a), std::move(s));
            const auto before = state(p.schema(), p.array());
            ArrowArray ca = leaf(1).array(t), cb = leaf(1).array(t); ArrowSchema cs = leaf(1).schema(t), cc = leaf(1).schema(t);
            switch (choose(13))
            {
                case 0: VP_THROWS(sp::arrow_proxy_exception, p.add_child(&ca, &cs)); break;
                case 1: VP_THROWS(sp::arrow_proxy_exception, p.pop_children(0)); break;
                case 2: VP_THROWS(sp::arrow_proxy_exception, p.set_dictionary(&ca, &cs)); break;
                case 3: VP_THROWS(sp::arrow_proxy_exception, p.set_name("x")); break;
                case 4: VP_THROWS(sp::arrow_proxy_exception, p.set_metadata("x")); break;
                case 5: VP_THROWS(sp::arrow_proxy_exception, p.set_format("i")); break;
                case 6: VP_THROWS(sp::arrow_proxy_exception, p.set_length(1)); break;
                case 7: VP_THROWS(sp::arrow_proxy_exception, p.set_offset(1)); break;
                case 8: VP_THROWS(sp::arrow_proxy_exception, p.set_null_count(1)); break;
                case 9: VP_THROWS(sp::arrow_proxy_exception, p.set_n_buffers(1)); break;
                case 10: VP_THROWS(sp::arrow_proxy_exception, p.set_flags({})); break;
                case 11: VP_THROWS(sp::arrow_proxy_exception, p.set_data_type(sp::data_type::INT32)); break;
                case 12: if (p.n_buffers() == 0) prune(); VP_THROWS(sp::arrow_proxy_exception, p.set_buffer(0, sp::buffer<std::uint8_t>())); break;
            }
            VP_CHECK(state(p.schema(), p.array()) == before, "a refused change changed the structure");
            ca.release(&ca); cs.release(&cs); cb.release(&cb); cc.release(&cc);
        }
        if (a.release) a.release(&a);
        if (s.release) s.release(&s);
    }
    t.check(0, 0);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("flat arrays", [] { history(tier(4, 6), {"i32"}, {"string"}); }, {.stateful = true});
        add("nested arrays", [] { history(tier(3, 4), {"struct<i32,string>", "dict8<string>"}, {"dict8<string>", "struct<i32,string>"}); }, {.stateful = true});
        add("all layouts", [] { history(tier(1, 2), {"dense<i32,string>", "sparse<i32,string,f64>", "ree32<i32>", "list<i32>", "listview<i32>", "fixed2<i32>"},
            {"dense<i32,string>", "sparse<i32,string,f64>", "ree32<i32>", "listview<dict>", "null", "struct<list,dict,i64>"}); }, {.stateful = true});
        add("children of proxies", [] { proxy_children(tier(5, 7)); }, {.stateful = true});
        add("consumer", consumer);
        add("refused", refused);
    });
}
