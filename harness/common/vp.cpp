#include "vp.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <new>
#include <atomic>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:handle_abort=0:handle_segv=1:allocator_may_return_null=0:max_allocation_size_mb=1024:"
           "hard_rss_limit_mb=6000:detect_stack_use_after_return=0:abort_on_error=0:exitcode=3:quarantine_size_mb=8:"
           "alloc_dealloc_mismatch=0:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }

namespace vp
{
    struct PrunePath {};
    std::uint64_t n_checks = 0;
    bool expecting_throw = false;
    std::int64_t live_allocs = 0, live_bytes = 0, fail_alloc_at = 0;
    std::uint64_t total_allocs = 0;

    namespace
    {
        std::vector<std::uint32_t> path, arity;
        std::size_t pos = 0, forced = 0;
        bool g_trace = false, g_thorough = false, g_replay = false;
        std::uint64_t executions = 0, transitions = 0, pruned = 0, states = 0, max_len = 0, completed = 0;
        std::uint64_t* table = nullptr;
        std::uint64_t table_size = 0, spec_salt = 0;
        std::map<std::string, std::uint64_t> covers;
        std::vector<Spec> specs;
        std::string cur_spec, replay_out;
        std::uint32_t shard = 0, nshards = 1;
        bool capped = false;
        volatile std::uint64_t heartbeat = 0;
        bool reporting = false;
        char reason[4096];

        bool cur_stateful = false;
        std::size_t shard_depth = 3;
        std::uint64_t sharded = 0, dup = 0;
        struct Shard {};
        struct Quiet          // engine-internal allocations are not the program's
        {
            std::int64_t a = live_allocs, b = live_bytes, f = fail_alloc_at;
            std::uint64_t t = total_allocs;
            Quiet() { fail_alloc_at = 0; }
            ~Quiet() { live_allocs = a; live_bytes = b; fail_alloc_at = f; total_allocs = t; }
        };

        bool sharded_out(std::size_t depth)
        {
            // a path is owned by the shard its first choices hash to (two levels)
            if (nshards <= 1) return false;
            Hash h;
            for (std::size_t i = 0; i < depth; ++i) h(path[i]);
            h(std::uint32_t(depth));
            return (h.h >> 7) % nshards != shard;
        }

        void write_replay()
        {
            int fd = ::open(replay_out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd < 0) return;
            static char buf[1 << 16];
            int n = snprintf(buf, sizeof buf, "spec %s\nthorough %d\nreason %s\nchoices", cur_spec.c_str(), int(g_thorough), reason);
            for (std::size_t i = 0; i < pos && n < int(sizeof buf) - 32; ++i) n += snprintf(buf + n, sizeof buf - n, " %u", path[i]);
            n += snprintf(buf + n, sizeof buf - n, "\n");
            (void)!::write(fd, buf, n);
            ::close(fd);
        }
        void die(const char* why)
        {
            if (reporting) _exit(3);
            reporting = true;
            if (why) { strncpy(reason, why, sizeof reason - 1); for (char* p = reason; *p; ++p) if (*p == '\n') *p = ' '; }
            if (!g_replay) write_replay();
            fprintf(stderr, "VP-FAIL spec=%s reason=%s\n", cur_spec.c_str(), reason);
            fflush(stderr); fflush(stdout);
            _exit(3);
        }
        void on_signal(int s)
        {
            const char* n = s == SIGTRAP ? "contract assertion failed (SIGTRAP)" : s == SIGABRT ? "abort()" : s == SIGFPE ? "SIGFPE" : "fatal signal";
            die(n);
        }
        void on_alarm(int)
        {
            static std::uint64_t last = ~0ull;
            if (last == heartbeat) die("no progress for 20 s in one execution (hang)");
            last = heartbeat;
        }
        void on_death() { die("sanitizer report"); }
        void on_terminate()
        {
            try { if (auto e = std::current_exception()) std::rethrow_exception(e); }
            catch (const std::exception& e) { die((std::string("terminate: uncaught exception ") + e.what()).c_str()); }
            catch (...) { }
            die("terminate");
        }

        void run_one(const Spec& s)
        {
            ++heartbeat;
            pos = 0;
            ++executions;
            try
            {
                s.body();
                if (nshards > 1 && pos < shard_depth && shard != 0) { ++dup; --executions; }
                else ++completed;
            }
            catch (const PrunePath&) { ++pruned; }
            catch (const Shard&) { ++sharded; --executions; }
            catch (const std::exception& e) { die((std::string("uncaught exception: ") + e.what()).c_str()); }
            catch (...) { die("uncaught exception of unknown type"); }
            if (pos > max_len) max_len = pos;
        }
        bool advance()
        {
            path.resize(pos); arity.resize(pos);
            while (!path.empty() && path.back() + 1 >= arity.back()) { path.pop_back(); arity.pop_back(); }
            if (path.empty()) return false;
            ++path.back();
            ++transitions;
            forced = path.size();
            return true;
        }
    }

    std::string fmt(const char* f, ...)
    {
        if (!*f) return {};
        char b[2048];
        va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        return b;
    }
    void prune() { throw PrunePath{}; }
    std::uint32_t choose(std::uint32_t n)
    {
        if (n == 0) prune();
        Quiet q;
        if (pos < path.size())
        {
            if (!g_replay) { if (arity[pos] != n) die("harness error: nondeterministic arity"); }
            else if (path[pos] >= n) die("harness error: replay out of range");
            std::uint32_t r = path[pos++];
            if (!g_replay && pos == shard_depth && sharded_out(pos)) throw Shard{};
            return r;
        }
        if (g_replay) { path.push_back(0); arity.push_back(n); ++pos; return 0; }
        path.push_back(0); arity.push_back(n);
        ++transitions;
        ++pos;
        if (pos == shard_depth && sharded_out(pos)) throw Shard{};
        return 0;
    }
    // The table of expanded states is shared by all shards (lock-free, one word per state: 56 bits of hash, 8 bits of
    // remaining depth).  States met before the shard is decided are expanded by every shard and never recorded.
    void fresh(std::uint64_t h, std::uint32_t remaining)
    {
        if (g_replay || pos < forced || pos < shard_depth) return;
        if (remaining > 254) remaining = 254;
        h = (h ^ spec_salt) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
        if ((h >> 8) == 0) h = 1ull << 40;
        const std::uint64_t key = h >> 8, word = (key << 8) | (remaining + 1);
        for (std::uint64_t i = h * 0xD6E8FEB86659FD93ull >> 8, probes = 0; probes < 4096; ++i, ++probes)
        {
            std::atomic_ref<std::uint64_t> e(table[i & (table_size - 1)]);
            std::uint64_t v = e.load(std::memory_order_relaxed);
            for (;;)
            {
                if (v == 0) { if (e.compare_exchange_strong(v, word)) { ++states; return; } continue; }
                if ((v >> 8) != key) break;
                if ((v & 0xff) >= remaining + 1) prune();
                if (e.compare_exchange_strong(v, word)) return;
            }
        }
    }
    bool tracing() { return g_trace; }
    bool thorough() { return g_thorough; }
    void note_str(const std::string& s) { fprintf(stdout, "  %s\n", s.c_str()); fflush(stdout); }
    void cover(const char* t) { if (g_replay) return; Quiet q; ++covers[t]; }
    void fail(const char* file, int line, const std::string& msg)
    {
        const char* b = strrchr(file, '/');
        die(fmt("%s:%d: %s", b ? b + 1 : file, line, msg.c_str()).c_str());
        _exit(3);
    }
    void add(std::string name, std::function<void()> body, Opt o) { specs.push_back({std::move(name), std::move(body), o}); }

    LeakScope::LeakScope() : before(live_allocs), exc(std::uncaught_exceptions()) {}
    LeakScope::~LeakScope() noexcept(false)
    {
        if (std::uncaught_exceptions() > exc) return;
        ++n_checks;
        if (live_allocs != before) fail(__FILE__, __LINE__, fmt("leak: %lld heap block(s) outlive the scenario", (long long)(live_allocs - before)));
    }

    int main_(int argc, char** argv, std::function<void()> declare)
    {
        std::string only, replay_in, stats_out, table_file;
        double max_s = 1e9;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return argv[++i]; };
            if (a == "--thorough") g_thorough = true;
            else if (a == "--spec") only = val();
            else if (a == "--replay") replay_in = val();
            else if (a == "--replay-out") replay_out = val();
            else if (a == "--stats") stats_out = val();
            else if (a == "--shard") { auto v = val(); sscanf(v.c_str(), "%u/%u", &shard, &nshards); }
            else if (a == "--table") table_file = val();
            else if (a == "--max-seconds") max_s = atof(val().c_str());
        }
        if (replay_out.empty()) replay_out = "/dev/null";
        std::vector<std::uint32_t> rp;
        if (!replay_in.empty())
        {
            g_replay = true; g_trace = true;
            FILE* f = fopen(replay_in.c_str(), "r");
            if (!f) { perror("replay"); return 2; }
            char line[1 << 16];
            while (fgets(line, sizeof line, f))
            {
                char* nl = strchr(line, '\n'); if (nl) *nl = 0;
                if (!strncmp(line, "spec ", 5)) only = line + 5;
                else if (!strncmp(line, "thorough ", 9)) g_thorough = atoi(line + 9);
                else if (!strncmp(line, "choices", 7)) { char* p = line + 7; char* e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; rp.push_back(std::uint32_t(v)); p = e; } }
            }
            fclose(f);
        }
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
        std::signal(SIGTRAP, on_signal); std::signal(SIGABRT, on_signal); std::signal(SIGFPE, on_signal); std::signal(SIGILL, on_signal);
        std::set_terminate(on_terminate);
        struct sigaction sa{}; sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
        itimerval tv{{20, 0}, {20, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);

        if (!table_file.empty())
        {
            int fd = ::open(table_file.c_str(), O_RDWR);
            struct stat st;
            if (fd < 0 || fstat(fd, &st) != 0) { perror("table"); return 2; }
            table_size = std::uint64_t(st.st_size) / 8;
            table = static_cast<std::uint64_t*>(mmap(nullptr, std::size_t(st.st_size), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        }
        else
        {
            table_size = 1ull << 22;
            table = static_cast<std::uint64_t*>(mmap(nullptr, table_size * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        }
        if (table == MAP_FAILED) { perror("mmap"); return 2; }
        declare();
        auto t0 = std::chrono::steady_clock::now();
        struct Per { std::string name; std::uint64_t ex, tr, st, pr, co; bool stateful; std::vector<std::uint32_t> sample; };
        std::vector<Per> per;
        for (auto& s : specs)
        {
            if (!only.empty() && s.name != only) continue;
            if (s.opt.thorough_only && !g_thorough && !g_replay) continue;
            cur_spec = s.name;
            cur_stateful = s.opt.stateful; shard_depth = s.opt.shard_depth;
            if (g_replay) { path = rp; arity.assign(rp.size(), 0); run_one(s); continue; }
            auto e0 = executions, tr0 = transitions, st0 = states, pr0 = pruned, co0 = completed;
            std::vector<std::uint32_t> sample; std::uint64_t want = 1;
            path.clear(); arity.clear(); forced = 0; spec_salt = Hash()(s.name).h;
            do
            {
                run_one(s);
                if (completed - co0 >= want && want < (1ull << 40)) { sample.assign(path.begin(), path.begin() + long(pos)); want *= 4; }
                if ((executions & 255) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > max_s) { capped = true; break; }
            } while (advance());
            per.push_back({s.name, executions - e0, transitions - tr0, states - st0, pruned - pr0, completed - co0, cur_stateful, sample});
        }
        if (g_replay) { printf("replay finished without failure\n"); return 0; }
        if (!stats_out.empty())
        {
            FILE* f = fopen(stats_out.c_str(), "w");
            fprintf(f, "{\"executions\":%llu,\"completed\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"checks\":%llu,\"max_choices\":%llu,\"capped\":%s,\"covers\":{",
                    (unsigned long long)executions, (unsigned long long)completed, (unsigned long long)transitions, (unsigned long long)states, (unsigned long long)pruned,
                    (unsigned long long)n_checks, (unsigned long long)max_len, capped ? "true" : "false");
            bool first = true;
            for (auto& [k, v] : covers) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
            fprintf(f, "},\"specs\":{");
            first = true;
            for (auto& p : per) {
                fprintf(f, "%s\"%s\":{\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"completed\":%llu,\"stateful\":%s,\"sample\":\"", first ? "" : ",", p.name.c_str(), (unsigned long long)p.ex, (unsigned long long)p.tr, (unsigned long long)p.st, (unsigned long long)p.pr, (unsigned long long)p.co, p.stateful ? "true" : "false");
                for (auto c : p.sample) fprintf(f, "%u ", c);
                fprintf(f, "\"}"); first = false;
            }
            fprintf(f, "}}\n");
            fclose(f);
        }
        return 0;
    }
}

// ---- counted global allocation
#ifndef VP_NO_NEW
#include <malloc.h>
namespace
{
    void* vp_new(std::size_t n)
    {
        if (vp::fail_alloc_at > 0 && --vp::fail_alloc_at == 0) throw std::bad_alloc();
        void* p = std::malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        ++vp::live_allocs; ++vp::total_allocs;
        vp::live_bytes += static_cast<std::int64_t>(n);
        return p;
    }
    void vp_del(void* p) noexcept { if (p) { --vp::live_allocs; std::free(p); } }
}
void* operator new(std::size_t n) { return vp_new(n); }
void* operator new[](std::size_t n) { return vp_new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return vp_new(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return vp_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { vp_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vp_del(p); }
void operator delete(void* p) noexcept { vp_del(p); }
void operator delete[](void* p) noexcept { vp_del(p); }
void operator delete(void* p, std::size_t) noexcept { vp_del(p); }
void operator delete[](void* p, std::size_t) noexcept { vp_del(p); }
#endif
