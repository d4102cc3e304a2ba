// Inputs of the builder: enumerates values of nested types, with their canonical text and the layout they determine
#pragma once
#include "deep.hpp"
#include <sparrow/builder/builder.hpp>
#include <array>
#include <deque>
#include <list>
#include <tuple>
#include <variant>

namespace bd
{
    namespace sp = sparrow;
    using namespace zu;
    template <class T> using N = sp::nullable<T>;
    template <class T> using V = std::vector<T>;

    inline int counter = 0;         // scalars of plain inputs are numbered
    inline int encoded = 0;         // >0: inside an encoded input, where scalars are chosen among few values
    inline bool layouts = true;     // check the layout (false where the input leaves it open)
    inline int menu = 2;            // how many

    template <class T> struct is_array : std::false_type {};
    template <class T, std::size_t S> struct is_array<std::array<T, S>> : std::true_type { static constexpr std::size_t size = S; using type = T; };
    template <class T> inline constexpr bool is_tuple = requires { std::tuple_size<T>::value; } && !is_array<T>::value;
    template <class T> inline constexpr bool is_variant = requires { std::variant_size<T>::value; };
    template <class T> inline constexpr bool is_text = std::convertible_to<T, std::string_view> || (std::ranges::range<T> && requires { requires sizeof(typename T::value_type) == 1 && std::is_integral_v<typename T::value_type> && !std::is_same_v<typename T::value_type, std::int8_t> && !std::is_same_v<typename T::value_type, bool>; } && !is_array<T>::value);
    template <class T> inline constexpr bool is_desire = sp::detail::is_express_layout_desire<T>;

    inline const std::array<std::string, 4>& texts()
    {
        static const std::array<std::string, 4> t{"", "aaaaaaaaaaaaaaaaaaaaaaaaaa", "b", std::string("a\0b", 3)};
        return t;
    }
    inline const std::vector<std::string>& numbered()
    {
        static const std::vector<std::string> t = [] { std::vector<std::string> r; for (int i = 0; i < 64; ++i) r.push_back(std::string(std::size_t((i * 7 + 1) % 19), char('a' + i % 26))); return r; }();
        return t;
    }
    // a value of T; depth: how many containers it is in
    template <class T> T make(int depth)
    {
        if constexpr (sp::is_nullable_v<T>)
        {
            using U = typename T::value_type;
            // null with the default value underneath, or with another one
            constexpr bool hides = std::ranges::range<U> || is_tuple<U>;
            const auto c = vp::choose(hides ? 3 : 2);
            if (c == 0) return T(make<U>(depth));
            T r(U{});
            if (c == 2) { const int k = counter; r = T(make<U>(depth)); counter = k; }
            r = sp::nullval;
            return r;
        }
        else if constexpr (is_desire<T>) { ++encoded; T r(make<typename T::value_type>(depth)); --encoded; return r; }
        else if constexpr (std::is_arithmetic_v<T>)
        {
            if (!encoded)
            {
                const int c = counter++;
                if constexpr (std::is_same_v<T, bool>) return c % 3 == 1; else if constexpr (std::is_floating_point_v<T>) return T(c) + T(0.5); else return T(T(~T(0)) / 2 + T(c * 37));
            }
            const auto c = int(vp::choose(std::uint32_t(std::is_floating_point_v<T> ? menu + 1 : menu)));
            if constexpr (std::is_floating_point_v<T>) return c == 0 ? T(1.5) : c == 1 ? std::numeric_limits<T>::quiet_NaN() : T(-2 + c); else return T(c == 0 ? 5 : c == 1 ? 0 : 200 + c);
        }
        else if constexpr (is_text<T>)
        {
            if constexpr (std::is_same_v<T, std::string_view>) return std::string_view(encoded ? texts()[vp::choose(std::uint32_t(menu))] : numbered()[std::size_t(counter++ % 64)]);
            else { const std::string& s = encoded ? texts()[vp::choose(std::uint32_t(menu))] : numbered()[std::size_t(counter++ % 64)]; return T(s.begin(), s.end()); }
        }
        else if constexpr (is_array<T>::value) { T r{}; for (auto& e : r) e = make<typename T::value_type>(depth); return r; }
        else if constexpr (is_tuple<T>) { T r{}; [&]<std::size_t... I>(std::index_sequence<I...>) { ((std::get<I>(r) = make<std::tuple_element_t<I, T>>(depth)), ...); }(std::make_index_sequence<std::tuple_size_v<T>>{}); return r; }
        else if constexpr (is_variant<T>)
        {
            T r;
            const auto c = vp::choose(std::variant_size_v<T>);
            [&]<std::size_t... I>(std::index_sequence<I...>) { ((I == c ? (void) r.template emplace<I>(make<std::variant_alternative_t<I, T>>(depth)) : void()), ...); }(std::make_index_sequence<std::variant_size_v<T>>{});
            return r;
        }
        else
        {
            static_assert(std::ranges::range<T>);
            T r;
            const auto n = vp::choose(depth == 0 ? 3 : depth == 1 ? 3 : 2);
            for (std::uint32_t i = 0; i < n; ++i) r.push_back(make<typename T::value_type>(depth + 1));
            return r;
        }
    }
    template <class T> std::string text(const T& t)
    {
        if constexpr (sp::is_nullable_v<T>) return t.has_value() ? text(t.get()) : ar::null_();
        else if constexpr (is_desire<T>) return text(t.get());
        else if constexpr (std::is_arithmetic_v<T>) return ar::prim<T>(t);
        else if constexpr (is_text<T>) { std::string s(t.begin(), t.end()); return ar::text(s); }
        else if constexpr (is_variant<T>) return std::visit([](const auto& x) { return text(x); }, t);
        else if constexpr (is_tuple<T>) { ar::Strs r; std::apply([&](const auto&... x) { (r.push_back(text(x)), ...); }, t); std::string s = list_text(r, 0, r.size()); s.front() = '{'; s.back() = '}'; return s; }
        else { ar::Strs r; for (const auto& x : t) r.push_back(text(static_cast<const typename T::value_type&>(x))); return list_text(r, 0, r.size()); }
    }
    template <class D> std::string encoded_as(const std::string& s) { return sp::detail::is_dict_encode<D> ? "L<" + s + ">" : "+r(l," + s + ",)"; }
    template <class T> std::string layout(bool large);
    // the type of a field or of an alternative
    template <class T> std::string column(bool large)
    {
        using X = sp::detail::mnv_t<T>;
        if constexpr (is_desire<X>) return encoded_as<X>(layout<typename X::value_type>(large)); else return layout<T>(large);
    }
    // the type of the elements in the exported schema
    template <class T> std::string layout(bool large)
    {
        if constexpr (sp::is_nullable_v<T>) return layout<typename T::value_type>(large);
        else if constexpr (is_desire<T>)
        {
            // as the element of a range, it is about the elements of the list it holds (and has no effect on a text)
            using X = typename T::value_type;
            if constexpr (is_text<X> || sp::is_nullable_v<X>) return layout<X>(large);
            else if constexpr (is_array<X>::value) return "+w:" + std::to_string(is_array<X>::size) + "(" + encoded_as<T>(layout<typename X::value_type>(large)) + ",)";
            else return (large ? "+L(" : "+l(") + encoded_as<T>(layout<typename X::value_type>(large)) + ",)";
        }
        else if constexpr (std::is_same_v<T, bool>) return "b";
        else if constexpr (std::is_floating_point_v<T>) return sizeof(T) == 4 ? "f" : "g";
        else if constexpr (std::is_integral_v<T>) { const char* u = "CSIL"; const char* s = "csil"; int k = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3; return std::string(1, std::is_signed_v<T> ? s[k] : u[k]); }
        else if constexpr (is_text<T>) return "u";
        else if constexpr (is_array<T>::value) return "+w:" + std::to_string(is_array<T>::size) + "(" + layout<typename T::value_type>(large) + ",)";
        else if constexpr (is_tuple<T>) { std::string r = "+s("; [&]<std::size_t... I>(std::index_sequence<I...>) { ((r += column<std::tuple_element_t<I, T>>(large) + ","), ...); }(std::make_index_sequence<std::tuple_size_v<T>>{}); return r + ")"; }
        else if constexpr (is_variant<T>)
        {
            std::string ids, c;
            [&]<std::size_t... I>(std::index_sequence<I...>) { ((ids += (I ? "," : "") + std::to_string(I), c += column<std::variant_alternative_t<I, T>>(large) + ","), ...); }(std::make_index_sequence<std::variant_size_v<T>>{});
            return "+us:" + ids + "(" + c + ")";
        }
        else return (large ? "+L(" : "+l(") + layout<typename T::value_type>(large) + ",)";
    }
    inline std::string layout(const ArrowSchema& s)
    {
        std::string r = s.format;
        if (s.n_children) { r += "("; for (std::int64_t i = 0; i < s.n_children; ++i) r += layout(*s.children[i]) + ","; r += ")"; }
        if (s.dictionary) r += "<" + layout(*s.dictionary) + ">";
        return r;
    }
    // every dictionary has distinct entries, adjacent runs differ
    inline void minimal(const ArrowSchema& s, const ArrowArray& a, const char* what)
    {
        for (std::int64_t i = 0; i < s.n_children; ++i) minimal(*s.children[i], *a.children[i], what);
        if (s.dictionary)
        {
            auto d = ar::decode_all(*s.dictionary, *a.dictionary);
            auto e = d; std::sort(e.begin(), e.end());
            VP_CHECK(std::adjacent_find(e.begin(), e.end()) == e.end(), "%s: a value is twice in a dictionary", what);
            // every entry is used
            auto all = ar::decode_all(s, a);
            for (auto& x : d) VP_CHECK(std::find(all.begin(), all.end(), x) != all.end(), "%s: unused dictionary entry %s", what, x.c_str());
        }
        if (std::string_view(s.format) == "+r")
        {
            auto d = ar::decode_all(*s.children[1], *a.children[1]);
            for (std::size_t i = 1; i < d.size(); ++i) VP_CHECK(d[i] != d[i - 1] || d[i].find("nan") != std::string::npos, "%s: adjacent runs of %s", what, d[i].c_str());
        }
    }
    template <class T> inline constexpr bool has_bool = false;
    template <> inline constexpr bool has_bool<bool> = true;
    template <class T> inline constexpr bool has_bool<N<T>> = has_bool<T>;
    template <class T> inline constexpr bool has_bool<std::vector<T>> = has_bool<T>;

    template <class A> void verify(A typed, const ar::Strs& want, const std::string& lay, bool boolean)
    {
        VP_SAME(sc::shown(typed), want, "built");
        VP_SAME(sc::iterated(typed), want, "built, iterated");
        sp::array a(std::move(typed));
        shows(a, want, "as an array");
        zu::typed(a, want, "as an array");
        if (boolean) return;            // known finding bool-layout
        full(a, want, "exported");
        auto [pa, ps] = sp::get_arrow_structures(a);
        VP_CHECK(!layouts || layout(*ps) == lay, "layout is %s, expected %s", layout(*ps).c_str(), lay.c_str());
        minimal(*ps, *pa, "built");
        {
            sp::array c(a);
            const bool nan = std::any_of(want.begin(), want.end(), [](const std::string& w) { return w.find("nan") != std::string::npos; });
            VP_CHECK((c == a) == !nan, "equality of the copy"); VP_SAME(sc::shown(c), want, "copy");
        }
        const std::size_t n = want.size();
        if (n)
        {
            sp::array s = a.slice(n / 2, n); full(s, sub(want, n / 2, n), "slice");
            auto v = a.slice_view(0, (n + 1) / 2); full(v, sub(want, 0, (n + 1) / 2), "slice view");
        }
    }
    // E: type of the elements of the input, Top: encoding of the whole input
    template <class E, class... Flags> void input(std::uint32_t longest, bool views)
    {
        vp::LeakScope l;
        counter = 0; encoded = 0;
        const auto n = vp::choose(longest + 1);
        std::vector<E> v;
        for (std::uint32_t i = 0; i < n; ++i) v.push_back(make<E>(0));
        ar::Strs want; for (const auto& x : v) want.push_back(text(static_cast<const E&>(x)));
        const int how = views ? int(vp::choose(4)) : int(n % 3);
        constexpr bool large = sizeof...(Flags) != 0;
        vp::note([&] { return vp::fmt("form %d of %s: ", how, layout<E>(large).c_str()) + list_text(want, 0, n); });
        const std::string lay = layout<E>(large);
        constexpr bool boolean = has_bool<E>;
        auto go = [&](auto&& x) { auto t = sp::build(std::forward<decltype(x)>(x), Flags{}...); return t; };
        if (how == 0)
        {
            auto t = go(v);
            ar::Strs after; for (const auto& x : v) after.push_back(text(static_cast<const E&>(x)));
            VP_SAME(after, want, "input");
            v.clear(); v.shrink_to_fit();
            verify(std::move(t), want, lay, boolean);
        }
        else if (how == 1) { auto t = go(std::as_const(v)); v.clear(); v.shrink_to_fit(); verify(std::move(t), want, lay, boolean); }
        else if (how == 2) { auto t = go(std::move(v)); v.clear(); v.shrink_to_fit(); verify(std::move(t), want, lay, boolean); }
        else { auto t = go(v | std::views::all); v.clear(); v.shrink_to_fit(); verify(std::move(t), want, lay, boolean); }
    }
    // the whole input is encoded: D<std::vector<E>>
    template <template <class...> class D, class E> void whole(std::uint32_t longest)
    {
        vp::LeakScope l;
        counter = 0; encoded = 1;
        const auto n = vp::choose(longest + 1);
        std::vector<E> v;
        for (std::uint32_t i = 0; i < n; ++i) v.push_back(make<E>(0));
        encoded = 0;
        ar::Strs want; for (const auto& x : v) want.push_back(text(static_cast<const E&>(x)));
        const int how = int(n % 3);
        vp::note([&] { return vp::fmt("form %d of %s: ", how, encoded_as<D<E>>(layout<E>(false)).c_str()) + list_text(want, 0, n); });
        const std::string lay = encoded_as<D<E>>(layout<E>(false));
        std::optional<D<std::vector<E>>> d; d.emplace(std::move(v));
        if (how == 0) { auto t = sp::build(*d); d.reset(); verify(std::move(t), want, lay, has_bool<E>); }
        else if (how == 1) { auto t = sp::build(std::as_const(*d)); d.reset(); verify(std::move(t), want, lay, has_bool<E>); }
        else { auto t = sp::build(std::move(*d)); d.reset(); verify(std::move(t), want, lay, has_bool<E>); }
    }
}
