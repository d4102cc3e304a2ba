// P23: formats, names, metadata and flags survive every round trip
#include "common/vp.hpp"
#include "common/arrowref.hpp"
#include <cstring>
#include "common/zoo.hpp"
#include <sparrow/sparrow.hpp>
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <sparrow/arrow_interface/arrow_flag_utils.hpp>
#include <algorithm>
#include <memory>
#include <optional>
using namespace vp;
namespace sp = sparrow;
using DT = sp::data_type;
using Str = std::optional<std::string>;
using sp::arrow_proxy;
using sp::ArrowFlag;

static const std::string long_name(40, 'N'), long_meta(300, 'M');
static const ArrowFlag all_flags[] = {ArrowFlag::DICTIONARY_ORDERED, ArrowFlag::NULLABLE, ArrowFlag::MAP_KEYS_SORTED};   // 1, 2, 4
static std::vector<ArrowFlag> flags_of(unsigned bits, int order)
{
    std::vector<ArrowFlag> v;
    for (int i = 0; i < 3; ++i) if (bits >> i & 1) v.push_back(all_flags[i]);
    if (order == 1) std::reverse(v.begin(), v.end());
    if (order == 2) { const auto w = v; v.insert(v.end(), w.begin(), w.end()); }      // every flag twice
    return v;
}
static std::string str(const Str& s) { return s ? "'" + *s + "'" : "none"; }
static Str opt(std::optional<const std::string_view> v) { return v ? Str(std::string(*v)) : Str(); }
static Str cstr(const char* p) { return p ? Str(p) : Str(); }

// What a schema says
struct Node
{
    std::string format; Str name, meta; unsigned flags = 0;
    std::vector<std::shared_ptr<Node>> children; std::shared_ptr<Node> dict;
};
using NodeP = std::shared_ptr<Node>;
static NodeP read(const ArrowSchema& s)
{
    auto n = std::make_shared<Node>();
    n->format = s.format; n->name = cstr(s.name); n->meta = cstr(s.metadata); n->flags = unsigned(s.flags);
    for (std::int64_t i = 0; i < s.n_children; ++i) n->children.push_back(read(*s.children[i]));
    if (s.dictionary) n->dict = read(*s.dictionary);
    return n;
}
static NodeP clone(const Node& o)
{
    auto n = std::make_shared<Node>(o);
    for (auto& c : n->children) c = clone(*c);
    if (n->dict) n->dict = clone(*n->dict);
    return n;
}
static DT type_of(std::string_view f)      // the Arrow specification, as far as sparrow's types go
{
    static const std::pair<const char*, DT> exact[] = {
        {"n", DT::NA}, {"b", DT::BOOL}, {"c", DT::INT8}, {"C", DT::UINT8}, {"s", DT::INT16}, {"S", DT::UINT16}, {"i", DT::INT32}, {"I", DT::UINT32}, {"l", DT::INT64}, {"L", DT::UINT64},
        {"e", DT::HALF_FLOAT}, {"f", DT::FLOAT}, {"g", DT::DOUBLE}, {"u", DT::STRING}, {"U", DT::STRING}, {"z", DT::BINARY}, {"Z", DT::BINARY}, {"vu", DT::STRING_VIEW}, {"vz", DT::BINARY_VIEW},
        {"+l", DT::LIST}, {"+L", DT::LARGE_LIST}, {"+vl", DT::LIST_VIEW}, {"+vL", DT::LARGE_LIST_VIEW}, {"+s", DT::STRUCT}, {"+m", DT::MAP}, {"+r", DT::RUN_ENCODED}};
    for (auto& e : exact) if (f == e.first) return e.second;
    static const std::pair<const char*, DT> prefix[] = {{"ts", DT::TIMESTAMP}, {"+w:", DT::FIXED_SIZED_LIST}, {"+ud:", DT::DENSE_UNION}, {"+us:", DT::SPARSE_UNION}, {"d:", DT::DECIMAL}, {"w:", DT::FIXED_WIDTH_BINARY}};
    for (auto& e : prefix) if (f.starts_with(e.first)) return e.second;
    return DT::NA;
}
static void agrees(const ArrowSchema& s, const Node& n, const char* what)
{
    VP_CHECK(s.release != nullptr, "%s: released", what);
    VP_CHECK(std::string(s.format) == n.format, "%s: exported format %s, want %s", what, s.format, n.format.c_str());
    VP_CHECK(cstr(s.name) == n.name, "%s: exported name %s, want %s", what, str(cstr(s.name)).c_str(), str(n.name).c_str());
    VP_CHECK(cstr(s.metadata) == n.meta, "%s: exported metadata %s, want %s", what, str(cstr(s.metadata)).c_str(), str(n.meta).c_str());
    VP_CHECK(s.flags == std::int64_t(n.flags), "%s: exported flags %lld, want %u", what, (long long)s.flags, n.flags);
    VP_CHECK(std::size_t(s.n_children) == n.children.size() && !s.dictionary == !n.dict, "%s: shape", what);
    for (std::size_t i = 0; i < n.children.size(); ++i) agrees(*s.children[i], *n.children[i], what);
    if (n.dict) agrees(*s.dictionary, *n.dict, what);
}
static void agrees(const arrow_proxy& p, const Node& n, const char* what)
{
    VP_CHECK(p.format() == n.format, "%s: format %s, want %s", what, std::string(p.format()).c_str(), n.format.c_str());
    VP_CHECK(p.data_type() == type_of(n.format) || n.format[0] == 't', "%s: type %d of %s", what, int(p.data_type()), n.format.c_str());
    VP_CHECK(opt(p.name()) == n.name, "%s: name %s, want %s", what, str(opt(p.name())).c_str(), str(n.name).c_str());
    VP_CHECK(opt(p.metadata()) == n.meta, "%s: metadata %s, want %s", what, str(opt(p.metadata())).c_str(), str(n.meta).c_str());
    VP_CHECK(p.flags() == flags_of(n.flags, 0), "%s: flags, want %u", what, n.flags);
    VP_CHECK(p.children().size() == n.children.size() && !p.dictionary() == !n.dict, "%s: shape", what);
    for (std::size_t i = 0; i < n.children.size(); ++i) agrees(p.children()[i], *n.children[i], what);
    if (n.dict) agrees(*p.dictionary(), *n.dict, what);
}
static void both(const arrow_proxy& p, const Node& n, const char* what) { agrees(p, n, what); agrees(p.schema(), n, what); }

// ---- formats
static constexpr bool static_round(DT t) { return sp::format_to_data_type(sp::data_type_to_format(t)) == t; }
static_assert(static_round(DT::INT32) && static_round(DT::LARGE_LIST));
static void types()
{
    const DT t = DT(choose(256));
    const unsigned u = unsigned(t);
    note([&] { return fmt("type %u", u); });
    const std::pair<DT, const char*> fixed[] = {
        {DT::NA, "n"}, {DT::BOOL, "b"}, {DT::INT8, "c"}, {DT::UINT8, "C"}, {DT::INT16, "s"}, {DT::UINT16, "S"}, {DT::INT32, "i"}, {DT::UINT32, "I"}, {DT::INT64, "l"}, {DT::UINT64, "L"},
        {DT::HALF_FLOAT, "e"}, {DT::FLOAT, "f"}, {DT::DOUBLE, "g"}, {DT::STRING, "u"}, {DT::BINARY, "z"}, {DT::LIST, "+l"}, {DT::LARGE_LIST, "+L"}};
    std::string_view f; bool thrown = false;
    try { f = sp::data_type_to_format(t); } catch (const std::runtime_error&) { thrown = true; }
    for (auto& e : fixed) if (e.first == t) VP_CHECK(!thrown && f == e.second, "format of type %u", u);
    if (thrown) { cover("no single format"); return; }
    VP_CHECK(f.size() == std::strlen(f.data()), "format of type %u is not terminated", u);
    VP_CHECK(sp::format_to_data_type(f) == t, "type %u -> %s -> %u", u, f.data(), unsigned(sp::format_to_data_type(f)));
    for (unsigned v = 0; v < 256; ++v) if (v != u) { std::string_view g; try { g = sp::data_type_to_format(DT(v)); } catch (const std::runtime_error&) { continue; } VP_CHECK(f != g, "types %u and %u have the same format", u, v); }
    if (t == DT::TIMESTAMP && !f.starts_with("ts")) cover("KF:timestamp-format");
}
static void formats()
{
    const std::uint32_t n = choose(tier(4, 5));
    static const std::string alphabet = "nbcCsSiIlLefguUzZvtdDmwro+:0,9 \x01xX";
    std::string s;
    for (std::uint32_t i = 0; i < n; ++i) s += alphabet[choose(std::uint32_t(alphabet.size()))];
    note([&] { return "format " + s; });
    const DT got = sp::format_to_data_type(s), want = type_of(s);
    if (s.starts_with("t") && s.size() > 1) VP_CHECK(got == DT::TIMESTAMP || (want == DT::NA && got == DT::NA), "%s is type %u", s.c_str(), unsigned(got));
    else if (s.starts_with("+r")) VP_CHECK(got == DT::RUN_ENCODED || (want == DT::NA && got == DT::NA), "%s is type %u", s.c_str(), unsigned(got));
    else VP_CHECK(got == want, "%s is type %u, want %u", s.c_str(), unsigned(got), unsigned(want));
    for (const char* l : {"+w:", "+ud:", "+us:", "d:", "w:", "tsm:", "tss:"})
        VP_CHECK(sp::format_to_data_type(l + s) == type_of(l), "%s%s", l, s.c_str());
}
// the format every C++ type and layout is exported with
template <class A> static void exports(A&& made, const std::string& format, DT type)
{
    using L = std::remove_cvref_t<A>;
    auto check = [&](auto& a, const char* what)
    {
        auto& p = sp::detail::array_access::get_arrow_proxy(a);
        VP_CHECK(p.format() == format, "%s: format %s, want %s", what, std::string(p.format()).c_str(), format.c_str());
        VP_CHECK(p.data_type() == type, "%s of %s: type %u, want %u", what, format.c_str(), unsigned(p.data_type()), unsigned(type));
        auto [arr, sch] = sp::get_arrow_structures(a);
        VP_CHECK(std::string(sch->format) == format && arr != nullptr, "%s: exported format %s, want %s", what, sch->format, format.c_str());
        VP_CHECK(sch->name == nullptr || *sch->name == 0, "%s: it was not given a name", what);
        VP_CHECK(sch->metadata == nullptr, "%s: it was not given metadata", what);
    };
    check(made, "built");
    L c(made); check(c, "copied");
    sp::array a(std::move(made)); check(a, "type-erased");
    VP_CHECK(a.data_type() == type, "type %u of the array, want %u", unsigned(a.data_type()), unsigned(type));
    sp::array b(a); check(b, "copied type-erased");
    auto [arr, sch] = sp::extract_arrow_structures(std::move(b));
    VP_CHECK(std::string(sch.format) == format, "extracted format %s", sch.format);
    if (type == DT::STRING_VIEW) { arrow_proxy q(std::move(arr), std::move(sch)); VP_CHECK(q.data_type() == type, "imported"); return; }   // the factory makes no view arrays
    sp::array d(std::move(arr), std::move(sch)); check(d, "imported");
}
template <class T> static void primitive(const char* f, DT t)
{
    VP_CHECK(sp::arrow_traits<T>::type_id == t && sp::arrow_type_id<T>() == t, "arrow type of the C++ type of %s", f);
    sp::primitive_array<T> a(std::vector<T>(std::size_t(choose(3))));
    exports(std::move(a), f, t);
}
static sp::array ints(std::size_t n = 4) { return sp::array(sp::primitive_array<std::int32_t>(std::vector<std::int32_t>(n, 1))); }
static sp::array text() { return sp::array(sp::string_array(std::vector<std::string>{"a", "b", "c", "d"})); }
template <class T> static void dictionary(const char* f, DT t)
{
    sp::dictionary_encoded_array<T> a(sp::u8_buffer<T>({T(0), T(1)}), flip() ? text() : ints());
    exports(std::move(a), f, t);
}
static void layouts()
{
    LeakScope l;
    switch (choose(32))
    {
        case 0: primitive<bool>("b", DT::BOOL); break;
        case 1: primitive<std::int8_t>("c", DT::INT8); break;
        case 2: primitive<std::uint8_t>("C", DT::UINT8); break;
        case 3: primitive<std::int16_t>("s", DT::INT16); break;
        case 4: primitive<std::uint16_t>("S", DT::UINT16); break;
        case 5: primitive<std::int32_t>("i", DT::INT32); break;
        case 6: primitive<std::uint32_t>("I", DT::UINT32); break;
        case 7: primitive<std::int64_t>("l", DT::INT64); break;
        case 8: primitive<std::uint64_t>("L", DT::UINT64); break;
        case 9: primitive<sp::float16_t>("e", DT::HALF_FLOAT); break;
        case 10: primitive<float>("f", DT::FLOAT); break;
        case 11: primitive<double>("g", DT::DOUBLE); break;
        case 12: 
        {
            ar::Tracker tr; ar::FNode f; f.format = "n"; f.length = f.null_count = 3;
            exports(sp::null_array(arrow_proxy(f.array(tr), f.schema(tr))), "n", DT::NA); tr.check(0, 0);
        } break;
        case 13: exports(sp::string_array(std::vector<std::string>{"a"}), "u", DT::STRING); VP_CHECK(sp::arrow_traits<std::string>::type_id == DT::STRING, "type of strings"); break;
        case 14: exports(sp::list_array(ints(), sp::list_array::offset_from_sizes(std::vector<std::size_t>{2, 2})), "+l", DT::LIST); break;
        case 15: exports(sp::big_list_array(ints(), sp::big_list_array::offset_from_sizes(std::vector<std::size_t>{2, 2})), "+L", DT::LARGE_LIST); break;
        case 16: exports(sp::list_view_array(ints(), std::vector<std::uint32_t>{0, 2}, std::vector<std::uint32_t>{2, 2}), "+vl", DT::LIST_VIEW); break;
        case 17: exports(sp::big_list_view_array(ints(), std::vector<std::uint64_t>{0, 2}, std::vector<std::uint64_t>{2, 2}), "+vL", DT::LARGE_LIST_VIEW); break;
        case 18: { const auto k = pick(std::vector<std::uint64_t>{1, 2, 4, 12, 100, 1234567}); exports(sp::fixed_sized_list_array(k, ints(k > 1000 ? 0 : 2 * k)), "+w:" + std::to_string(k), DT::FIXED_SIZED_LIST); break; }
        case 19: { std::vector<sp::array> c; const auto n = choose(4); for (unsigned i = 0; i < n + 1; ++i) c.push_back(i % 2 ? text() : ints()); exports(sp::struct_array(std::move(c)), "+s", DT::STRUCT); break; }
        case 20: case 21:
        {
            const bool dense = flip(); const bool map = flip(); const auto n = 1 + choose(12);
            std::vector<sp::array> c; std::vector<std::uint8_t> m; std::string f = dense ? "+ud:" : "+us:";
            for (unsigned i = 0; i < n; ++i) { c.push_back(i % 2 ? text() : ints()); m.push_back(std::uint8_t(map ? 120 - 11 * int(i) % 128 : int(i))); f += (i ? "," : "") + std::to_string(m.back()); }
            sp::u8_buffer<std::uint8_t> ids({m.back(), m[0], m[0], m.back()});
            sp::u8_buffer<std::uint32_t> off({0, 0, 1, 1});
            if (dense && map) exports(sp::dense_union_array(std::move(c), std::move(ids), std::move(off), m), f, DT::DENSE_UNION);
            else if (dense) exports(sp::dense_union_array(std::move(c), std::move(ids), std::move(off)), f, DT::DENSE_UNION);
            else if (map) exports(sp::sparse_union_array(std::move(c), std::move(ids), m), f, DT::SPARSE_UNION);
            else exports(sp::sparse_union_array(std::move(c), std::move(ids)), f, DT::SPARSE_UNION);
            break;
        }
        case 22: exports(sp::run_end_encoded_array(sp::array(sp::primitive_array<std::int32_t>(std::vector<std::int32_t>{1, 2, 3, 7})), text()), "+r", DT::RUN_ENCODED); break;
        case 23: dictionary<std::int8_t>("c", DT::INT8); break;
        case 24: dictionary<std::uint8_t>("C", DT::UINT8); break;
        case 25: dictionary<std::int16_t>("s", DT::INT16); break;
        case 26: dictionary<std::uint16_t>("S", DT::UINT16); break;
        case 27: dictionary<std::int32_t>("i", DT::INT32); break;
        case 28: dictionary<std::uint32_t>("I", DT::UINT32); break;
        case 29: dictionary<std::int64_t>("l", DT::INT64); break;
        case 30: dictionary<std::uint64_t>("L", DT::UINT64); break;
        default: exports(sp::string_view_array(std::vector<std::string_view>{"a", "a long string view element"}), "vu", DT::STRING_VIEW); break;
    }
}
// ---- flags
static void flags()
{
    const unsigned bits = choose(8); const int order = int(choose(3));
    const auto v = flags_of(bits, order);
    VP_CHECK(sp::to_ArrowFlag_value(v) == std::int64_t(bits), "value of flags %u", bits);
    VP_CHECK(sp::to_vector_of_ArrowFlags(bits) == flags_of(bits, 0), "flags of value %u", bits);
    for (unsigned i = 0; i < 64; ++i)
    {
        const std::int64_t b = std::int64_t(std::uint64_t(1) << i);
        VP_CHECK(sp::is_valid_ArrowFlag_value(b) == (i < 3), "flag %u", i);
        if (i >= 3) VP_THROWS(std::runtime_error, (void)sp::to_vector_of_ArrowFlags(std::int64_t(bits) | b));
    }
}
// ---- making schemas
struct Menu { const char* text; bool none; };
static Str menu_string(std::uint32_t k) { return k == 0 ? Str() : k == 1 ? Str("") : k == 2 ? Str("n") : Str(long_name); }
template <class F> static void with_string(const Str& s, int form, F f)      // every type that a string may be given as
{
    switch (form)
    {
        case 0: f(s); break;
        case 1: { std::optional<std::string_view> v; if (s) v = *s; f(v); break; }
        case 2: if (!s) prune(); f(*s); break;
        case 3: if (!s) prune(); f(std::string_view(*s)); break;
        case 4: if (!s) prune(); f(s->c_str()); break;
        default: if (s) prune(); f(std::nullopt); break;
    }
}
static void schemas()
{
    LeakScope l;
    const unsigned fl = choose(9); const auto shape = choose(4);
    const Str name = menu_string(choose(4)), meta = menu_string(choose(4));
    const int nform = int(choose(6)), mform = int(choose(6)), fform = int(choose(2)), how = int(choose(2));
    const std::string format = pick(std::vector<std::string>{"+s", "tss:Europe/Somewhere far away"});
    note([&] { return "name " + str(name) + ", metadata " + str(meta) + fmt(", flags %u, shape %u, forms %d %d %d %d", fl, shape, nform, mform, fform, how); });
    auto want = std::make_shared<Node>();
    want->format = format; want->name = name; want->meta = meta; want->flags = fl == 8 ? 0 : fl;
    auto leaf = [&](const char* n) { auto k = std::make_shared<Node>(); k->format = "i"; k->name = n; k->meta = "leaf"; k->flags = 2; return k; };
    auto make_leaf = [&](const char* n) { return sp::make_arrow_schema(std::string("i"), n, std::string("leaf"), ArrowFlag::NULLABLE, 0, nullptr, nullptr); };
    std::optional<ArrowFlag> flags; if (fl != 8) flags = ArrowFlag(fl);
    ArrowSchema** children = nullptr; ArrowSchema* dict = nullptr; std::int64_t n = 0;
    if (shape & 1) { n = 2; children = new ArrowSchema*[2]; for (int i = 0; i < 2; ++i) { children[i] = new ArrowSchema(make_leaf(i ? "second" : "first")); want->children.push_back(leaf(i ? "second" : "first")); } }
    if (shape & 2) { dict = new ArrowSchema(make_leaf("dictionary")); want->dict = leaf("dictionary"); }
    auto drop = [](ArrowSchema*& s) { if (s) { if (s->release) s->release(s); delete s; s = nullptr; } };
    struct Guard { ArrowSchema s{}; ~Guard() { if (s.release) s.release(&s); } } a, b;
    bool made = false;
    try
    {
        with_string(name, nform, [&](auto nm) { with_string(meta, mform, [&](auto mt)
        {
            auto go = [&](auto f)
            {
                if (how == 0) a.s = sp::make_arrow_schema(f, nm, mt, flags, n, children, dict);
                else sp::fill_arrow_schema(a.s, f, nm, mt, flags, n, children, dict);
                made = true;
            };
            if (fform == 0) go(format); else go(std::string_view(format));
        }); });
    }
    catch (...) { if (!made) { if (children) { drop(children[0]); drop(children[1]); delete[] children; } drop(dict); } throw; }
    {   // ownership of what was created here passes with the private data
        auto pd = static_cast<sp::arrow_schema_private_data*>(a.s.private_data);
        for (std::size_t i = 0; i < std::size_t(n); ++i) pd->set_child_ownership(i, true);
        if (dict) pd->set_dictionary_ownership(true);
    }
    agrees(a.s, *want, "made");
    b.s = sp::copy_schema(a.s); agrees(b.s, *want, "copied");
    VP_CHECK(a.s.release == &sp::release_arrow_schema && b.s.release == &sp::release_arrow_schema, "release");
    ArrowSchema c = b.s; b.s.release = nullptr; agrees(c, *want, "moved"); // Arrow move
    a.s.release(&a.s); VP_CHECK(a.s.release == nullptr, "not marked as released");
    agrees(c, *want, "copied, the source released"); c.release(&c); VP_CHECK(c.release == nullptr, "not marked as released");
}
// ---- histories
static arrow_proxy steal(sp::array&& a) { auto [x, s] = sp::extract_arrow_structures(std::move(a)); return arrow_proxy(std::move(x), std::move(s)); }
static sp::array longs() { return sp::array(sp::primitive_array<std::int64_t>(std::vector<sp::nullable<std::int64_t>>{1, sp::nullval, 3})); }
static arrow_proxy start(int kind)
{
    if (kind == 0) return steal(longs());
    if (kind == 1) { std::vector<sp::array> c; c.push_back(longs()); c.push_back(longs()); return steal(sp::array(sp::struct_array(std::move(c)))); }
    return steal(sp::array(sp::dictionary_encoded_array<std::int64_t>(sp::u8_buffer<std::int64_t>({0, 1, 2}), longs())));
}
struct Slot { std::unique_ptr<arrow_proxy> p; NodeP n; };
static arrow_proxy& at(arrow_proxy& p, std::uint32_t k) { if (k == 0) return p; if (p.dictionary()) return *p.dictionary(); return p.children()[k - 1]; }
static Node& at(Node& n, std::uint32_t k) { if (k == 0) return n; if (n.dict) return *n.dict; return *n.children[k - 1]; }
static void history(int kind, std::uint32_t depth)
{
    LeakScope l;
    Slot s[2]; std::unique_ptr<arrow_proxy> view; int viewed = -1;
    s[0].p = std::make_unique<arrow_proxy>(start(kind)); s[0].n = read(s[0].p->schema());
    s[1].p = std::make_unique<arrow_proxy>(*s[0].p); s[1].n = clone(*s[0].n);
    const std::uint32_t nodes = kind == 0 ? 1 : kind == 1 ? 3 : 2;
    auto check = [&] { both(*s[0].p, *s[0].n, "first"); both(*s[1].p, *s[1].n, "second"); if (view) agrees(*view, *s[viewed].n, "view"); };
    check();
    const std::uint32_t steps = choose(depth + 1);
    for (std::uint32_t step = 0; step < steps; ++step)
    {
        const auto w = choose(2); auto& [p, n] = s[w];
        const auto op = choose(14);
        if (op < 5)
        {
            const auto k = choose(nodes); const bool through_view = view && viewed == int(w) && kind == 0 && flip();
            auto& q = through_view ? *view : at(*p, k); auto& m = at(*n, k);
            // a view made before refers to strings that are about to be replaced
            struct Renew { std::unique_ptr<arrow_proxy>& v; bool self; ~Renew() { if (v && !self) v.reset(); } };
            switch (op)
            {
                case 0:
                {
                    const auto c = choose(5);
                    if (c == 4) { note([&] { return fmt("%u.%u.set_name(own name)", w, k); }); q.set_name(q.name()); break; }
                    const Str v = menu_string(c); note([&] { return fmt("%u.%u.set_name(%s)", w, k, str(v).c_str()); });
                    { Str t = v; q.set_name(t ? std::optional<const std::string_view>(*t) : std::nullopt); if (t) std::fill(t->begin(), t->end(), '#'); }
                    m.name = v; break;
                }
                case 1:
                {
                    const auto c = choose(5);
                    if (c == 4) { note([&] { return fmt("%u.%u.set_metadata(own metadata)", w, k); }); q.set_metadata(q.metadata()); break; }
                    const Str v = c == 0 ? Str() : c == 1 ? Str("") : c == 2 ? Str("key=value") : Str(long_meta); note([&] { return fmt("%u.%u.set_metadata(%s)", w, k, str(v).c_str()); });
                    { Str t = v; q.set_metadata(t ? std::optional<const std::string_view>(*t) : std::nullopt); if (t) std::fill(t->begin(), t->end(), '#'); }
                    m.meta = v; break;
                }
                case 2: { static const unsigned f[] = {0, 2, 5, 7}; const auto c = choose(4); note([&] { return fmt("%u.%u.set_flags(%u)", w, k, f[c]); }); q.set_flags(flags_of(f[c], int(c) % 3)); m.flags = f[c]; break; }
                case 3:
                {
                    if (m.format[0] == '+') prune();
                    static const char* const f[] = {"l", "g", "tsn:Europe/A zone with a long name"}; const auto c = choose(4);
                    if (c == 3) { note([&] { return fmt("%u.%u.set_format(own format)", w, k); }); q.set_format(q.format()); break; }
                    note([&] { return fmt("%u.%u.set_format(%s)", w, k, f[c]); }); { std::string t = f[c]; q.set_format(t); t.assign(t.size(), '#'); } m.format = f[c]; break;
                }
                default:
                {
                    static const DT f[] = {DT::UINT64, DT::DOUBLE, DT::STRUCT}; const auto c = choose(3); note([&] { return fmt("%u.%u.set_data_type(%u)", w, k, unsigned(f[c])); });
                    if (m.format[0] == '+' && c < 2) prune();
                    if (c == 2) { try { q.set_data_type(f[c]); prune(); } catch (const std::runtime_error&) {} } else { q.set_data_type(f[c]); m.format = c ? "g" : "L"; }
                    break;
                }
            }
            continue;
        }
        auto drop_view = [&](int of) { if (view && (of < 0 || viewed == of)) view.reset(); };
        switch (op)
        {
            case 5: note([&] { return fmt("%u = %u", w, 1 - w); }); drop_view(int(w)); *p = *s[1 - w].p; n = clone(*s[1 - w].n); break;
            case 6: note([&] { return fmt("%u = copy of itself", w); }); drop_view(int(w)); p = std::make_unique<arrow_proxy>(*p); n = clone(*n); break;
            case 7: { note([&] { return fmt("%u = moved %u", w, w); }); drop_view(int(w)); arrow_proxy t(std::move(*p)); both(t, *n, "moved"); *p = std::move(t); break; }
            case 8: if (w) prune(); note([&] { return std::string("swap"); }); drop_view(-1); std::swap(*s[0].p, *s[1].p); std::swap(s[0].n, s[1].n); break;
            case 9: { note([&] { return fmt("%u = slice", w); }); drop_view(int(w)); if (p->length() == 0) prune(); *p = p->slice(1, p->length()); break; }
            case 10: { note([&] { return fmt("slice view of %u", w); }); auto v = p->slice_view(0, p->length() ? 1 : 0); both(v, *n, "slice view"); VP_THROWS(sp::arrow_proxy_exception, v.set_name("other")); VP_THROWS(sp::arrow_proxy_exception, v.set_metadata("other")); VP_THROWS(sp::arrow_proxy_exception, v.set_flags({})); VP_THROWS(sp::arrow_proxy_exception, v.set_format("g")); VP_THROWS(sp::arrow_proxy_exception, v.set_data_type(DT::DOUBLE)); both(v, *n, "slice view"); arrow_proxy c(v); both(c, *n, "copy of a slice view"); c.set_name("a copy of a slice view"); both(v, *n, "slice view"); break; }
            case 11:
            {
                note([&] { return fmt("%u exported and imported", w); }); drop_view(int(w));
                ArrowArray a = p->extract_array(); ArrowSchema sc = p->extract_schema();
                agrees(sc, *n, "extracted");
                *p = arrow_proxy(std::move(a), std::move(sc)); break;
            }
            case 12:
            {
                note([&] { return fmt("%u through sparrow::array", w); }); drop_view(int(w));
                if (type_of(n->dict ? n->dict->format : n->format) == DT::TIMESTAMP || (n->dict && (n->format == "g" || type_of(n->format) == DT::TIMESTAMP))) prune();     // not supported by the factory
                for (auto& c : n->children) if (type_of(c->format) == DT::TIMESTAMP) prune();
                ArrowArray a = p->extract_array(); ArrowSchema sc = p->extract_schema();
                sp::array x(std::move(a), std::move(sc)); agrees(*sp::get_arrow_schema(x), *n, "array");
                sp::array y(x); agrees(*sp::get_arrow_schema(y), *n, "copied array");
                sp::array z; z = y; agrees(*sp::get_arrow_schema(z), *n, "assigned array");
                sp::array v = x.slice_view(0, 1); agrees(*sp::get_arrow_schema(v), *n, "viewed array");
                sp::array q = x.slice(0, 1); agrees(*sp::get_arrow_schema(q), *n, "sliced array");
                *p = steal(std::move(z)); break;
            }
            default: note([&] { return fmt("view of %u", w); }); view.reset(); view = std::make_unique<arrow_proxy>(p->view()); viewed = int(w); break;
        }
    }
    check();
}
// ---- every layout, named at every node
static void name_all(arrow_proxy& p, Node& n, int salt, int& count)
{
    const int k = count++;
    n.name = (k + salt) % 3 == 0 ? Str() : (k + salt) % 3 == 1 ? Str("node " + std::to_string(k)) : Str(long_name + std::to_string(k)); p.set_name(n.name ? std::optional<const std::string_view>(*n.name) : std::nullopt);
    n.meta = (k + salt) % 4 == 0 ? Str(long_meta + std::to_string(k)) : (k + salt) % 4 == 1 ? Str() : (k + salt) % 4 == 2 ? Str("") : Str("meta " + std::to_string(k)); p.set_metadata(n.meta ? std::optional<const std::string_view>(*n.meta) : std::nullopt);
    n.flags = unsigned(k + salt) % 8; p.set_flags(flags_of(n.flags, salt % 3));
    for (std::size_t i = 0; i < n.children.size(); ++i) name_all(p.children()[i], *n.children[i], salt, count);
    if (n.dict) name_all(*p.dictionary(), *n.dict, salt, count);
}
static void everywhere()
{
    LeakScope l;
    const bool foreign = flip();
    const auto k = choose(std::uint32_t(foreign ? zoo::fkinds().size() : zoo::kinds().size()));
    const int salt = int(choose(tier(8, 24)));
    note([&] { return (foreign ? "imported " + zoo::fkinds()[k].name : "built " + zoo::kinds()[k].name) + fmt(", names %d", salt); });
    const zoo::Mask mask(3, true);
    ar::Tracker tr;
    {
        std::optional<arrow_proxy> q;
        if (foreign)
        {
            auto f = zoo::fmake(k, mask);
            ArrowArray a = f.n.array(tr); ArrowSchema s = f.n.schema(tr);
            arrow_proxy im(std::move(a), std::move(s));
            const auto before = read(im.schema());
            both(im, *before, "imported");
            // structures that sparrow did not make stay as they are
            VP_THROWS(sp::arrow_proxy_exception, im.set_name("other")); VP_THROWS(sp::arrow_proxy_exception, im.set_name(std::nullopt));
            VP_THROWS(sp::arrow_proxy_exception, im.set_metadata("other")); VP_THROWS(sp::arrow_proxy_exception, im.set_flags({ArrowFlag::NULLABLE})); VP_THROWS(sp::arrow_proxy_exception, im.set_format("g")); VP_THROWS(sp::arrow_proxy_exception, im.set_data_type(DT::DOUBLE));
            both(im, *before, "imported, refused changes");
            q.emplace(im); both(*q, *before, "copy of an import");
            int c = 0; auto n = clone(*before); name_all(*q, *n, salt, c); both(*q, *n, "changed copy"); both(im, *before, "import whose copy was changed");
        }
        else { auto m = zoo::make(k, mask); q.emplace(steal(std::move(m.a))); }
        auto n = read(q->schema()); int count = 0; name_all(*q, *n, salt, count);
        both(*q, *n, "named");
        arrow_proxy c(*q); both(c, *n, "copied");
        { auto m = clone(*n); int cc = 0; name_all(c, *m, salt + 1, cc); both(c, *m, "renamed copy"); both(*q, *n, "source of a renamed copy"); }
        ArrowArray a = q->extract_array(); ArrowSchema s = q->extract_schema();
        agrees(s, *n, "extracted");
        sp::array x(std::move(a), std::move(s));
        agrees(*sp::get_arrow_schema(x), *n, "array");
        sp::array y(x); agrees(*sp::get_arrow_schema(y), *n, "copied array");
        { auto& p = sp::detail::array_access::get_arrow_proxy(y); auto m = clone(*n); int cc = 0; name_all(p, *m, salt + 2, cc); agrees(*sp::get_arrow_schema(y), *m, "renamed copy"); agrees(*sp::get_arrow_schema(x), *n, "array whose copy was renamed");
          sp::array yy(std::move(y)); agrees(*sp::get_arrow_schema(yy), *m, "moved"); sp::array t(x); t = yy; agrees(*sp::get_arrow_schema(t), *m, "assigned"); agrees(*sp::get_arrow_schema(yy), *m, "assigned from"); t = std::move(yy); agrees(*sp::get_arrow_schema(t), *m, "move assigned"); }
        { sp::array t = x.slice(1, 3); agrees(*sp::get_arrow_schema(t), *n, "slice"); auto& p = sp::detail::array_access::get_arrow_proxy(t); auto m = clone(*n); int cc = 0; name_all(p, *m, salt + 3, cc); agrees(*sp::get_arrow_schema(t), *m, "renamed slice"); agrees(*sp::get_arrow_schema(x), *n, "array whose slice was renamed"); }
        { sp::array t = x.slice_view(1, 3); agrees(*sp::get_arrow_schema(t), *n, "slice view"); sp::array u(t); agrees(*sp::get_arrow_schema(u), *n, "copy of a slice view"); }
        // as a child of another array
        if (x.size() == 3)
        {
            std::vector<sp::array> v; v.push_back(sp::array(x)); v.push_back(std::move(x));
            sp::struct_array st(std::move(v));
            auto sc = sp::get_arrow_schema(st);
            VP_CHECK(sc->n_children == 2, "children");
            agrees(*sc->children[0], *n, "first child"); agrees(*sc->children[1], *n, "second child");
            sp::struct_array cp(st); agrees(*sp::get_arrow_schema(cp)->children[1], *n, "child of a copy");
            auto [ea, es] = sp::extract_arrow_structures(std::move(st));
            agrees(*es.children[0], *n, "extracted child");
            sp::array back(std::move(ea), std::move(es)); agrees(*sp::get_arrow_schema(back)->children[1], *n, "child of an imported array");
        }
    }
    tr.check(0, 0);
}
// Arrow's metadata is binary: a count and pairs of sized strings
static void binary_metadata()
{
    LeakScope l;
    const auto pairs = choose(4); const auto len = choose(3);
    std::string m;
    auto num = [&](std::uint32_t v) { m.append(reinterpret_cast<const char*>(&v), 4); };
    num(pairs);
    for (unsigned i = 0; i < pairs; ++i) { const std::string k(len == 2 ? 300 : len, char('a' + int(i))); num(std::uint32_t(k.size())); m += k; num(std::uint32_t(k.size())); m += k; }
    auto p = steal(longs());
    p.set_metadata(m);
    VP_CHECK(!std::memcmp(p.schema().metadata, m.data(), m.size()), "exported metadata");
    arrow_proxy c(p);
    if (p.metadata() != m || c.metadata() != m) cover("KF:binary-metadata");
    VP_CHECK(m.starts_with(std::string(*p.metadata())) && m.starts_with(std::string(*c.metadata())), "metadata is something else");
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        zoo::kinds(); zoo::fkinds();
        add("types", types);
        add("formats", formats);
        add("layouts", layouts);
        add("flags", flags);
        add("schemas", schemas);
        add("histories flat", [] { history(0, tier(3, 4)); }, {.shard_depth = 6});
        add("histories struct", [] { history(1, tier(2, 3)); }, {.shard_depth = 6});
        add("histories dictionary", [] { history(2, tier(3, 4)); }, {.shard_depth = 6});
        add("everywhere", everywhere);
        add("binary metadata", binary_metadata);
    });
}
