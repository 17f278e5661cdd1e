// Native side of the specification primitives: replays recorded values, or draws seeded random ones.
#include "irv.h"
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <sys/stat.h>

namespace
{
struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : next(); }
} g_rng;

struct Rec
{
    std::vector<std::pair<std::string, uint64_t>> vals;
    std::vector<std::pair<std::string, std::vector<unsigned char>>> arrs;
} g_rec;

bool g_replay = false;
std::map<std::string, uint64_t> g_rv;
std::map<std::string, std::map<uint64_t, unsigned char>> g_ra;
std::map<std::string, int> g_seen;
std::set<std::string> g_covers;
std::string g_recfile, g_scratch, g_name;
jmp_buf g_jmp;
int g_recfd = -1;
volatile bool g_in_run = false;
    uint64_t g_drawn = 7;    // a hash of what the run has drawn
bool g_nontrivial = false;
int g_mode = 0;

std::string uniq(const char* n)
{
    int k = g_seen[n]++;
    return k ? std::string(n) + "." + std::to_string(k) : n;
}

void write_rec(const std::string& why)
{
    if (g_recfile.empty())
        return;
    FILE* f = g_recfd >= 0 ? fdopen(g_recfd, "w") : fopen(g_recfile.c_str(), "w");
    if (!f)
        return;
    std::string w = why;
    for (auto& c : w)
        if (c == '\n')
            c = ' ';
    fprintf(f, "harness %s\nfailed %s\n", g_name.c_str(), w.c_str());
    for (auto& v : g_rec.vals)
        fprintf(f, "v %s %llu\n", v.first.c_str(), (unsigned long long)v.second);
    for (auto& a : g_rec.arrs)
    {
        fprintf(f, "a %s ", a.first.c_str());
        for (unsigned char c : a.second)
            fprintf(f, "%02x", c);
        fprintf(f, "\n");
    }
    fclose(f);
}

[[noreturn]] void fail(const std::string& why)
{
    if (!g_in_run)
        _exit(5);
    g_in_run = false;
    write_rec(why);
    printf("FAILED %s: %s\n", g_name.c_str(), why.c_str());
    fflush(stdout);
    _exit(3);
}

void on_signal(int sig)
{
    fail(sig == SIGALRM ? "the run does not terminate (60 s)" : std::string("crash, signal ") + std::to_string(sig));
}

[[noreturn]] void on_terminate()
{
    auto e = std::current_exception();
    std::string w = "std::terminate";
    if (e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception& x)
        {
            w += std::string(" with ") + typeid(x).name();
        }
        catch (...)
        {
        }
    }
    fail(w);
}

uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}

uint64_t draw(uint64_t lo, uint64_t hi)
{
    if (lo >= hi)
        return lo;
    uint64_t span = hi - lo;
    if (span < 16)
        return lo + g_rng.below(span + 1);
    uint64_t v;
    switch (g_rng.below(10))
    {
    case 0:
    case 1:
        v = lo + g_rng.below(5);
        break;
    case 2:
        v = hi - g_rng.below(5);
        break;
    case 3:
    case 4:
    case 5:
        if (!g_rec.vals.empty())
        {
            size_t n = g_rec.vals.size(), m = n < 8 ? n : 8;
            uint64_t a = g_rec.vals[n - 1 - g_rng.below(m)].second, b = g_rec.vals[n - 1 - g_rng.below(m)].second;
            switch (g_rng.below(5))
            {
            case 0: v = a; break;
            case 1: v = a + b; break;
            case 2: v = a * g_rng.below(6); break;
            case 3: v = b ? a - a % b : a; break;
            default: v = a > b ? a - b : b - a; break;
            }
            if (g_rng.below(2))
                v += g_rng.below(3) - 1;
            if (v < lo || v > hi)
                v = lo + g_rng.below(span + 1);
            break;
        }
        [[fallthrough]];
    case 6:
    {
        int bits = 64 - __builtin_clzll(span | 1);
        uint64_t m = (2ull << g_rng.below(bits)) - 1;
        v = lo + (g_rng.next() & m) % (span + 1 ? span + 1 : ~0ull);
        break;
    }
    default:
        v = lo + (span == ~0ull ? g_rng.next() : g_rng.below(span + 1));
    }
    if (v < lo || v > hi)
        v = lo;
    return v;
}

void fill(unsigned char* p, uint64_t n, const std::string& name)
{
    if (g_replay)
    {
        memset(p, 0, n);
        for (auto& kv : g_ra[name])
            if (kv.first < n)
                p[kv.first] = kv.second;
    }
    else
    {
        int style = g_rng.below(8);
        for (uint64_t i = 0; i < n; ++i)
        {
            uint64_t r = g_rng.next();
            p[i] = style == 0 ? 0 : style == 1 ? (unsigned char)(r % 3) : style == 2 ? (unsigned char)(32 + r % 95)
                : style == 3 ? (r % 8 ? (unsigned char)(r >> 8) : 0) : (unsigned char)(r >> 8);
        }
    }
    if (g_rec.arrs.size() < 400)
        g_rec.arrs.emplace_back(name, std::vector<unsigned char>(p, p + (n < 65536 ? n : 65536)));
}
std::vector<std::pair<void (*)(void*), void*>> g_cleanup;
std::vector<void*> g_allocs;
}    // namespace

extern "C"
{
    const char* __asan_default_options()
    {
        return "detect_leaks=0:detect_container_overflow=0:allocator_may_return_null=1:exitcode=3:handle_abort=0:"
               "alloc_dealloc_mismatch=0:detect_odr_violation=0:max_allocation_size_mb=4096:"
               "detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=4";
    }
    void __asan_set_death_callback(void (*)()) __attribute__((weak));
    const char* irv_scratch() { return g_scratch.c_str(); }
    // a scratch directory of an unprivileged user, who this process becomes: whatever the code under test does,
    // it reaches nothing else.  Empty when that is not possible
    const char* irv_private()
    {
        static std::string dir;
        static bool done = false;
        if (done)
            return dir.c_str();
        done = true;
        if (g_scratch.empty())
            return "";
        g_recfd = open(g_recfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0600);
        std::string d = g_scratch + "/user";
        const uid_t nobody = 65534;
        if (mkdir(d.c_str(), 0700) && errno != EEXIST)
            return "";
        if (geteuid() == 0)
        {
            if (chown(d.c_str(), nobody, nobody) || chmod(g_scratch.c_str(), 0711) || setgroups(0, nullptr)
                || setresgid(nobody, nobody, nobody) || setresuid(nobody, nobody, nobody) || geteuid() == 0)
                return "";
        }
        umask(022);
        if (access(d.c_str(), R_OK | W_OK | X_OK))
            return "";
        dir = d;
        return dir.c_str();
    }
    uint64_t irv_rand(uint64_t n)
    {
        uint64_t v = g_rng.below(n);
        g_drawn = (g_drawn ^ v) * 1099511628211ull + 1;
        return v;
    }
    void irv_fail(const char* why) { fail(why); }

    uint64_t irv_var(const char* name, uint64_t lo, uint64_t hi)
    {
        std::string n = uniq(name);
        uint64_t v;
        if (g_replay)
        {
            auto it = g_rv.find(n);
            v = it == g_rv.end() ? lo : it->second;
            if (v < lo || v > hi)
            {
                if (!g_in_run)
                    _exit(4);
                longjmp(g_jmp, 1);
            }
        }
        else
            v = draw(lo, hi);
        g_rec.vals.emplace_back(n, v);
        return v;
    }
    void* irv_array(const char* name, uint64_t n)
    {
        unsigned char* p = (unsigned char*)malloc(n);
        if (n && !p)
            longjmp(g_jmp, 1);
        g_allocs.push_back(p);
        fill(p, n, uniq(name));
        return p;
    }
    void irv_havoc(void* p, uint64_t n, const char* name) { fill((unsigned char*)p, n, uniq(name)); }
    void irv_assume(bool c)
    {
        if (!c)
            longjmp(g_jmp, 1);
    }
    void irv_assert(bool c, const char* name)
    {
        if (!c)
            fail(name);
    }
    void irv_cover(const char* name)
    {
        g_nontrivial = true;
        if (g_covers.insert(name).second)
        {
            printf("COVER %s\n", name);
            fflush(stdout);
        }
    }
    uint64_t irv_uf(const char* name, uint64_t bits, ...)
    {
        // callers pass exactly four arguments natively
        va_list ap;
        va_start(ap, bits);
        uint64_t h = 0x1234567;
        for (const char* c = name; *c; ++c)
            h = mix(h, (unsigned char)*c);
        for (int i = 0; i < 4; ++i)
            h = mix(h, va_arg(ap, uint64_t));
        va_end(ap);
        return bits >= 64 ? h : h & ((1ull << bits) - 1);
    }
    void irv_focus(uint64_t) {}
    void irv_unroll(uint64_t) {}
    void irv_inv(bool (*)(void*, uint64_t), void*) {}
    void irv_track(uint64_t (*)(void*, uint64_t), void*) {}
    void irv_expect(void*, uint8_t (*)(void*, uint64_t), void*) {}
    void irv_inv_clear() {}
    void irv_try_unroll(uint64_t) {}
    void* irv_last_alloc() { return nullptr; }
    void irv_fill(void* p, uint64_t n, uint8_t (*spec)(void*, uint64_t), void* ctx)
    {
        for (uint64_t k = 0; k < n; ++k)
            ((uint8_t*)p)[k] = spec(ctx, k);
    }
    int irv_split(bool c) { return c; }
    uint64_t irv_concretize(uint64_t v) { return v; }
    uint64_t irv_size_of(const void*) { return ~0ull; }
}

static void load(const char* f)
{
    FILE* in = fopen(f, "r");
    if (!in)
        exit(2);
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, in) > 0)
    {
        std::string l(line);
        while (!l.empty() && (l.back() == '\n'))
            l.pop_back();
        if (l.size() < 3 || (l[0] != 'v' && l[0] != 'a') || l[1] != ' ')
            continue;
        // the name may contain spaces: split at the last one
        size_t sp = l.rfind(' ');
        if (sp == 1)
            continue;
        std::string n = l.substr(2, sp - 2), v = l.substr(sp + 1);
        if (l[0] == 'v')
            g_rv[n] = strtoull(v.c_str(), nullptr, 10);
        else if (v.find(':') != std::string::npos)
        {
            size_t p = 0;
            while (p < v.size())
            {
                size_t c = v.find(',', p);
                if (c == std::string::npos)
                    c = v.size();
                unsigned long long i, b;
                if (sscanf(v.substr(p, c - p).c_str(), "%llu:%llu", &i, &b) == 2)
                    g_ra[n][i] = (unsigned char)b;
                p = c + 1;
            }
        }
        else
            for (size_t i = 0; i + 1 < v.size(); i += 2)
                g_ra[n][i / 2] = (unsigned char)strtoul(v.substr(i, 2).c_str(), nullptr, 16);
    }
    free(line);
    fclose(in);
}

int main(int argc, char** argv)
{
    if (argc < 2)
        return 2;
    g_name = argv[1];
    double seconds = 5;
    uint64_t seed = 1, maxruns = ~0ull;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--seconds")
            seconds = atof(argv[i + 1]);
        else if (a == "--seed")
            seed = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--runs")
            maxruns = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--rec")
            g_recfile = argv[i + 1];
        else if (a == "--scratch")
            g_scratch = argv[i + 1];
        else if (a == "--replay")
        {
            g_replay = true;
            load(argv[i + 1]);
            maxruns = 1;
        }
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, g_name.c_str());
    if (!fn)
    {
        fprintf(stderr, "no harness %s\n", g_name.c_str());
        return 2;
    }
    std::set_terminate(on_terminate);
    static char other_stack[1 << 18];    // an endless recursion leaves no room on the stack
    stack_t alt{};
    alt.ss_sp = other_stack;
    alt.ss_size = sizeof(other_stack);
    sigaltstack(&alt, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM})
    {
        struct sigaction a{};
        a.sa_handler = on_signal;
        a.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &a, nullptr);
    }
    if (__asan_set_death_callback)
        __asan_set_death_callback([] { fail("memory error (AddressSanitizer)"); });
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t runs = 0, skipped = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::string sample;
    for (; runs < maxruns; ++runs)
    {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (!g_replay && (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > seconds)
            break;
        g_rng.s = seed * 0x51ED2701ull + runs * 0x9E3779B97F4A7C15ull;
        g_rng.next();
        g_rec = Rec();
        g_seen.clear();
        g_nontrivial = false;
        g_drawn = 7;
        alarm(60);
        g_in_run = true;
        if (setjmp(g_jmp) == 0)
        {
            try
            {
                fn();
            }
            catch (const std::exception& e)
            {
                int st;
                char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
                fail(std::string("exception ") + (d ? d : typeid(e).name()) + " escapes the harness: " + e.what());
            }
            catch (...)
            {
                fail("an exception escapes the harness");
            }
            g_in_run = false;
            uint64_t h = g_drawn;
            for (auto& v : g_rec.vals)
                h = mix(h, v.second);
            for (auto& a : g_rec.arrs)
                for (unsigned char c : a.second)
                    h = mix(h, c);
            if (g_nontrivial && distinct.size() < 4000000)
                distinct.insert(h);
            if (g_nontrivial && sample.empty())
                for (size_t i = 0; i < g_rec.vals.size() && i < 12; ++i)
                    sample += g_rec.vals[i].first + "=" + std::to_string(g_rec.vals[i].second) + " ";
        }
        else
        {
            g_in_run = false;
            ++skipped;
        }
        alarm(0);
        for (void* p : g_allocs)
            free(p);
        g_allocs.clear();
    }
    printf("RUNS %llu SKIPPED %llu DISTINCT %llu\nSAMPLE %s\n", (unsigned long long)runs, (unsigned long long)skipped,
           (unsigned long long)distinct.size(), sample.c_str());
    return g_replay && skipped ? 4 : 0;
}
