// P21: dictionary and run-end encoding by the builder loses nothing
#include "build.hpp"
using namespace vp;
using namespace bd;
#ifndef PART
#define PART 0
#endif
template <class... X> using T = std::tuple<X...>;
template <class... X> using U = std::variant<X...>;
template <class X> using D = sp::dict_encode<X>;
template <class X> using R = sp::run_end_encode<X>;
using S = std::string;
template <class X> using Dict = sp::dict_encode<X>;
template <class X> using Runs = sp::run_end_encode<X>;

// long inputs: many distinct values, long runs
template <template <class...> class D2, class E> static void long_input()
{
    LeakScope l;
    const std::size_t n = pick(std::vector<std::size_t>{1, 7, 64, 65, 300});
    const std::size_t period = pick(std::vector<std::size_t>{1, 2, 3, 64, 300}), run = pick(std::vector<std::size_t>{1, 2, 63, 300});
    const int null = int(choose(3));
    std::vector<sp::nullable<E>> v; ar::Strs want;
    for (std::size_t i = 0; i < n; ++i)
    {
        const std::size_t k = i / run % period;
        E x{};
        if constexpr (std::is_same_v<E, S>) x = S(k % 40, char('a' + k % 26)) + std::to_string(k); else x = E(k * 3) - E(2);
        v.push_back(sp::nullable<E>(x));
        if ((null == 1 && k % 5 == 2) || (null == 2 && i % 7 == 0)) v.back() = sp::nullval;
        want.push_back(text(v.back()));
    }
    note([&] { return fmt("%zu values, period %zu, runs of %zu, nulls %d", n, period, run, null); });
    D2<std::vector<sp::nullable<E>>> d(std::move(v));
    verify(sp::build(d), want, encoded_as<D2<E>>(layout<E>(false)), false);
}
int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        texts(); numbered(); zoo::kinds(); zoo::fkinds(); zoo::pkinds();
#define WHOLE(n, ...) add("dict_encode " #__VA_ARGS__, [] { menu = 2; whole<sp::dict_encode, __VA_ARGS__>(tier(n, n + 1)); }); add("run_end_encode " #__VA_ARGS__, [] { menu = 2; whole<sp::run_end_encode, __VA_ARGS__>(tier(n, n + 1)); });
#define WHOLE3(n, ...) add("dict_encode " #__VA_ARGS__, [] { menu = 3; whole<sp::dict_encode, __VA_ARGS__>(tier(n, n + 1)); }); add("run_end_encode " #__VA_ARGS__, [] { menu = 3; whole<sp::run_end_encode, __VA_ARGS__>(tier(n, n + 1)); });
#define IN(n, ...) add(#__VA_ARGS__, [] { menu = 2; input<__VA_ARGS__>(tier(n, n + 1), false); });
#define OPEN(n, ...) add("open " #__VA_ARGS__, [] { menu = 2; layouts = false; input<__VA_ARGS__>(tier(n, n + 1), false); layouts = true; });
#if PART == 0
        WHOLE3(5, int) WHOLE3(5, N<int>) WHOLE(4, std::int8_t) WHOLE(4, N<std::uint8_t>) WHOLE(4, N<std::uint16_t>) WHOLE(4, std::int64_t) WHOLE(4, N<std::uint64_t>)
        WHOLE(5, float) WHOLE(5, N<double>)
#elif PART == 1
        WHOLE3(5, S) WHOLE3(5, N<S>) WHOLE(3, V<char>)
        add("long dict", long_input<sp::dict_encode, std::int32_t>); add("long runs", long_input<sp::run_end_encode, std::int32_t>);
        add("long dict strings", long_input<sp::dict_encode, S>); add("long runs of strings", long_input<sp::run_end_encode, S>);
#elif PART == 2
        WHOLE(3, V<int>) WHOLE(3, N<V<N<int>>>) WHOLE(3, std::array<int, 2>) WHOLE(3, N<std::array<N<S>, 1>>) WHOLE(3, T<N<int>, std::uint16_t>) WHOLE(3, N<T<N<int>, S>>)
#elif PART == 3
        WHOLE(3, U<int, S>) WHOLE(3, U<N<int>, double>) WHOLE(2, V<V<int>>) WHOLE(2, N<V<N<S>>>) WHOLE(3, V<double>) WHOLE(2, T<V<int>, S>)
#elif PART == 4
        IN(3, D<V<int>>) IN(2, N<D<V<N<int>>>>) IN(2, V<D<S>>) IN(2, V<D<N<S>>>) IN(2, N<V<D<N<S>>>>) IN(3, D<std::array<S, 2>>) IN(2, N<D<std::array<S, 2>>>) IN(2, std::array<D<S>, 2>) IN(2, N<T<D<N<S>>, int>>) 
        OPEN(2, T<D<V<int>>, S>) OPEN(2, T<D<N<V<N<int>>>>, S>)
        IN(3, U<D<S>, int>) IN(3, U<D<S>, D<N<S>>>)
#else
        IN(3, R<V<int>>) IN(2, N<R<V<N<int>>>>) IN(2, V<R<S>>) IN(2, V<R<N<S>>>) IN(2, N<V<R<N<S>>>>) IN(3, R<std::array<S, 2>>) IN(2, N<R<std::array<S, 2>>>) IN(2, std::array<R<S>, 2>) IN(2, N<T<R<N<S>>, int>>) 
        OPEN(2, T<R<V<int>>, S>) OPEN(2, U<R<V<int>>, S>)
        IN(3, U<R<S>, int>) IN(3, T<R<S>, D<N<S>>>) IN(2, V<T<R<S>, D<N<S>>>>)
#endif
    });
}
