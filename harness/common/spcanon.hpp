// Canonical text of what sparrow's public API shows, comparable with ar::decode
#pragma once
#include "arrowref.hpp"
#include <sparrow/sparrow.hpp>
#include <sparrow/layout/variable_size_binary_view_array.hpp>
#include <ranges>

namespace sc
{
    namespace sp = sparrow;
    template <class T> std::string canon(const T& v);

    template <class T> std::string canon_value(const T& v)
    {
        using U = std::remove_cvref_t<T>;
        if constexpr (std::is_same_v<U, sp::null_type>) return ar::null_();
        else if constexpr (std::is_same_v<U, sp::float16_t>) return ar::real('e', double(float(v)));
        else if constexpr (std::is_same_v<U, bool> || std::is_integral_v<U> || std::is_floating_point_v<U>) return ar::prim<U>(v);
        else if constexpr (std::is_same_v<U, sp::list_value> || std::is_same_v<U, sp::struct_value>)
        {
            std::string r = std::is_same_v<U, sp::list_value> ? "[" : "{";
            for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += canon(v[i]); }
            return r + (std::is_same_v<U, sp::list_value> ? "]" : "}");
        }
        else if constexpr (std::convertible_to<U, std::string_view>) return ar::text(std::string_view(v));
        else if constexpr (requires { v.time_since_epoch(); }) return ar::num('t', v.time_since_epoch().count());
        else if constexpr (requires { v.get_sys_time(); }) return ar::num('t', v.get_sys_time().time_since_epoch().count());
        else if constexpr (std::ranges::range<U>)
        {
            using C = std::remove_cvref_t<std::ranges::range_reference_t<U>>;
            std::vector<C> t(v.begin(), v.end());
            if constexpr (std::is_same_v<C, char>) return ar::text(std::string_view(t.data(), t.size()));
            else { static_assert(sizeof(C) == 1); return ar::bytes(t.data(), t.size()); }
        }
        else static_assert(!sizeof(T*), "no canonical text");
    }
    template <class T> std::string canon(const T& v)
    {
        if constexpr (requires { v.has_value(); v.get(); }) return v.has_value() ? canon_value(v.get()) : ar::null_();
        else if constexpr (requires { v.has_value(); }) return v.has_value() ? std::visit([](const auto& x) { return canon(x); }, v) : ar::null_();
        else return canon_value(v);
    }
    // what operator[] shows
    template <class A> ar::Strs shown(const A& a)
    {
        ar::Strs r;
        const std::size_t n = a.size();
        for (std::size_t i = 0; i < n; ++i) r.push_back(canon(a[i]));
        return r;
    }
    template <class A> ar::Strs iterated(const A& a)
    {
        ar::Strs r;
        for (auto it = a.begin(); it != a.end(); ++it) { r.push_back(canon(*it)); if (r.size() > a.size() + 2) break; }
        return r;
    }
    template <class A> ar::Strs exported(A& a)
    {
        auto [arr, sch] = sp::get_arrow_structures(a);
        return ar::decode_all(*sch, *arr);
    }
}
