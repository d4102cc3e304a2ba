// Exhaustive exploration engine (stateless search over the real code with optional state matching).
//
// A harness is a nondeterministic program: it calls vp::choose(n) wherever the explored space
// branches.  vp::explore() runs the program once per distinct choice sequence (depth-first, by
// re-execution), so that every combination of choices within the program's own bounds is executed.
// vp::fresh(hash, budget) prunes a path whose concrete state was already expanded with at least the
// same remaining budget.  Any failed VP_CHECK, contract failure, sanitizer report, uncaught
// exception, hang or leak is a violation: the choice sequence is written to a replay file and the
// process ends with code 3.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <type_traits>
#include <vector>

namespace vp
{
    // ---- choices
    std::uint32_t choose(std::uint32_t n);              // 0..n-1, explored exhaustively
    template <class C>
    decltype(auto) pick(C&& c) { return c[choose(static_cast<std::uint32_t>(c.size()))]; }
    inline bool flip() { return choose(2) != 0; }
    [[noreturn]] void prune();                          // abandon this path (not an error)
    void fresh(std::uint64_t state_hash, std::uint32_t remaining);  // prune when already expanded

    // ---- tracing / bookkeeping
    bool tracing();                                     // true only while replaying
    void note_str(const std::string& s);
    template <class F>
    void note(F&& f) { if (tracing()) note_str(f()); }
    void cover(const char* tag);                        // count a named situation
    extern std::uint64_t n_checks;

    [[noreturn]] void fail(const char* file, int line, const std::string& msg);
    extern bool expecting_throw;

    // ---- exploration
    struct Opt
    {
        bool stateful = false;          // uses fresh()
        std::uint32_t shard_depth = 3;  // paths are distributed over the shards by their first choices (each shard matches its own states)
        bool thorough_only = false;
    };
    struct Spec
    {
        std::string name;
        std::function<void()> body;
        Opt opt;
    };
    void add(std::string name, std::function<void()> body, Opt o = {});
    int main_(int argc, char** argv, std::function<void()> declare);
    bool thorough();
    inline std::uint32_t tier(std::uint32_t quick, std::uint32_t deep) { return thorough() ? deep : quick; }

    // ---- allocation accounting (global operator new / delete are replaced)
    extern std::int64_t live_allocs;
    extern std::int64_t live_bytes;
    extern std::uint64_t total_allocs;
    extern std::int64_t fail_alloc_at;                  // >0: the n-th allocation from now throws bad_alloc
    struct LeakScope                                    // checks that no heap block outlives the scope
    {
        std::int64_t before;
        int exc;
        LeakScope();
        ~LeakScope() noexcept(false);
    };

    // ---- hashing
    struct Hash
    {
        std::uint64_t h = 1469598103934665603ull;
        Hash& bytes(const void* p, std::size_t n)
        {
            auto b = static_cast<const unsigned char*>(p);
            for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
            h ^= h >> 29;
            return *this;
        }
        template <class T>
        Hash& operator()(const T& t)
        {
            if constexpr (std::is_same_v<T, std::string>) { std::uint64_t n = t.size(); bytes(&n, 8); bytes(t.data(), t.size()); }
            else { static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>); bytes(&t, sizeof t); }
            return *this;
        }
    };
    std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}

#define VP_CHECK(cond, ...)                                                        \
    do { ++::vp::n_checks;                                                         \
         if (!(cond)) ::vp::fail(__FILE__, __LINE__, std::string(#cond " -- ") + ::vp::fmt("" __VA_ARGS__)); \
    } while (0)

#define VP_THROWS(ex, ...)                                                         \
    do { ++::vp::n_checks; bool vp_thrown_ = false;                                \
         try { __VA_ARGS__; } catch (const ex&) { vp_thrown_ = true; }             \
         if (!vp_thrown_) ::vp::fail(__FILE__, __LINE__, "expected " #ex " from " #__VA_ARGS__); \
    } while (0)
