// P20: the builder reproduces any nested value
#include "build.hpp"
using namespace vp;
using namespace bd;
#ifndef PART
#define PART 0
#endif
template <class... X> using T = std::tuple<X...>;
template <class... X> using U = std::variant<X...>;
using S = std::string;

int main(int argc, char** argv)
{
    return main_(argc, argv, [] {
        texts(); numbered(); zoo::kinds(); zoo::fkinds(); zoo::pkinds();
#define IN(n, views, ...) add(#__VA_ARGS__, [] { input<__VA_ARGS__>(tier(n, n + 1), views); });
#define LARGE(n, ...) add("large " #__VA_ARGS__, [] { input<__VA_ARGS__, sp::large_list_flag_t>(n, false); });
#if PART == 0
        IN(4, true, int) IN(4, true, N<int>) IN(3, false, std::int8_t) IN(3, false, N<std::uint8_t>) IN(3, false, N<std::int16_t>) IN(3, false, std::uint16_t) IN(3, false, N<std::uint32_t>)
        IN(3, false, std::int64_t) IN(3, false, N<std::uint64_t>) IN(3, false, float) IN(4, false, N<double>) IN(9, false, N<std::int64_t>)
        IN(4, false, bool) IN(4, false, N<bool>)
        IN(4, true, S) IN(4, true, N<S>) IN(3, false, V<char>) IN(3, false, N<V<std::uint8_t>>) IN(3, false, std::string_view) IN(3, false, N<std::string_view>)
#elif PART == 1
        IN(3, true, V<int>) IN(3, false, V<N<int>>) IN(3, false, N<V<N<int>>>) IN(3, false, V<S>) IN(3, false, N<V<N<S>>>) IN(2, false, V<V<int>>) IN(2, false, N<V<N<V<N<std::int16_t>>>>>)
        IN(3, false, std::list<int>) IN(3, false, std::deque<N<int>>) LARGE(3, V<int>) LARGE(2, N<V<N<V<int>>>>) LARGE(2, V<V<S>>)
#elif PART == 2
        IN(3, true, std::array<int, 2>) IN(2, false, N<std::array<N<float>, 3>>) IN(3, false, std::array<S, 2>) IN(2, false, N<std::array<V<N<int>>, 2>>) IN(2, false, std::array<std::array<int, 2>, 2>) IN(3, false, N<std::array<std::int64_t, 1>>)
        IN(3, false, V<std::array<int, 2>>) IN(2, false, N<V<N<std::array<N<int>, 2>>>>) IN(2, false, N<std::array<N<S>, 2>>) IN(2, false, N<std::array<N<std::array<N<int>, 1>>, 2>>)
#elif PART == 3
        IN(3, true, T<int, float>) IN(2, false, N<T<N<int>, N<S>>>) IN(3, false, T<V<int>, std::uint16_t>) IN(2, false, N<T<N<V<N<int>>>, N<std::array<N<int>, 1>>>>) IN(3, false, T<T<int, float>, S>)
        IN(2, false, N<T<N<T<N<int>, float>>, N<S>>>) IN(2, false, V<T<int, S>>) IN(2, false, N<V<N<T<N<int>, S>>>>) IN(3, false, std::pair<int, S>) IN(2, false, std::array<T<int, S>, 2>)
#elif PART == 4
        IN(3, true, U<int, float, S>) IN(3, false, U<N<int>, N<S>>) IN(2, false, U<V<N<int>>, T<int, S>, double>) IN(2, false, V<U<int, S>>) IN(2, false, N<V<U<N<int>, S>>>) IN(2, false, T<U<int, S>, int>) IN(2, false, std::array<U<int, S>, 2>)
        IN(2, false, U<U<int, S>, double>) IN(3, false, U<N<int>>)
#else
        IN(2, false, T<V<V<int>>, int>) IN(2, false, T<V<S>, int>) IN(2, false, T<V<N<V<int>>>, int>) IN(2, false, U<V<V<int>>, int>) IN(2, false, T<std::array<V<int>, 2>, int>) IN(2, false, V<T<V<int>, S>>)
#endif
    });
}
