// Stand-in for the abseil dependency. The copy installed in this sandbox was built with its own
// absl::string_view class and securefs needs the std::string_view flavour, so the entry points
// securefs uses are re-implemented here over the standard library. IRV is defined when the real
// sources are compiled for the deductive verifier: locks are then no-ops (each contract is about one
// sequential call) and formatted log/exception texts are empty.
#pragma once
#include <chrono>
#include <cctype>
#include <cerrno>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <initializer_list>
#include <memory>
#include <mutex>
#include <numeric>
#include <algorithm>
#include <sstream>
#include <string>
#include <shared_mutex>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...)
#define ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(...)
#define ABSL_SHARED_LOCKS_REQUIRED(...)
#define ABSL_SHARED_LOCK_FUNCTION(...)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_ASSERT_EXCLUSIVE_LOCK(...)
#define ABSL_GUARDED_BY(...)
#define ABSL_PT_GUARDED_BY(...)
#define ABSL_LOCKABLE
#define ABSL_NO_THREAD_SAFETY_ANALYSIS
#define ABSL_SCOPED_LOCKABLE
#define ABSL_UNLOCK_FUNCTION(...)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_MUST_USE_RESULT

namespace absl
{
using std::string_view;
using std::variant;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::visit;
using std::in_place_type;

template <class T>
class Span
{
public:
    using value_type = std::remove_cv_t<T>;
    using element_type = T;
    using size_type = size_t;
    constexpr Span() noexcept : p_(nullptr), n_(0) {}
    constexpr Span(T* p, size_t n) noexcept : p_(p), n_(n) {}
    template <size_t N>
    constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N)
    {
    }
    template <class C,
              class = std::enable_if_t<
                  std::is_convertible_v<decltype(std::declval<C&>().data()), T*>
                  && !std::is_same_v<std::decay_t<C>, Span>>>
    constexpr Span(C& c) noexcept : p_(c.data()), n_(c.size())
    {
    }
    template <class C,
              class = std::enable_if_t<
                  std::is_convertible_v<decltype(std::declval<const C&>().data()), T*>
                  && std::is_const_v<T> && !std::is_same_v<std::decay_t<C>, Span>>,
              int = 0>
    constexpr Span(const C& c) noexcept : p_(c.data()), n_(c.size())
    {
    }
    template <class U = T, class = std::enable_if_t<std::is_const_v<U>>>
    constexpr Span(std::initializer_list<value_type> l) noexcept : p_(l.begin()), n_(l.size())
    {
    }
    constexpr T* data() const noexcept { return p_; }
    constexpr size_t size() const noexcept { return n_; }
    constexpr size_t length() const noexcept { return n_; }
    constexpr bool empty() const noexcept { return n_ == 0; }
    constexpr T& operator[](size_t i) const noexcept { return p_[i]; }
    constexpr T& front() const noexcept { return p_[0]; }
    constexpr T& back() const noexcept { return p_[n_ - 1]; }
    constexpr T* begin() const noexcept { return p_; }
    constexpr T* end() const noexcept { return p_ + n_; }
    constexpr Span subspan(size_t pos, size_t len = size_t(-1)) const
    {
        return Span(p_ + pos, len < n_ - pos ? len : n_ - pos);
    }
    constexpr Span first(size_t n) const { return Span(p_, n); }

private:
    T* p_;
    size_t n_;
};
template <class T>
constexpr Span<const T> MakeConstSpan(T* p, size_t n) noexcept
{
    return Span<const T>(p, n);
}
template <class C>
constexpr auto MakeConstSpan(const C& c) noexcept -> Span<const std::remove_pointer_t<decltype(c.data())>>
{
    return {c.data(), c.size()};
}
template <class T>
constexpr Span<T> MakeSpan(T* p, size_t n) noexcept
{
    return Span<T>(p, n);
}

template <class T, size_t N>
class InlinedVector : public std::vector<T>
{
public:
    using std::vector<T>::vector;
};

template <class T, size_t N = size_t(-1)>
class FixedArray
{
public:
    explicit FixedArray(size_t n) : n_(n), p_(new T[n]) {}
    FixedArray(size_t n, const T& v) : n_(n), p_(new T[n]) { std::fill(p_.get(), p_.get() + n, v); }
    T* data() noexcept { return p_.get(); }
    const T* data() const noexcept { return p_.get(); }
    size_t size() const noexcept { return n_; }
    T& operator[](size_t i) noexcept { return p_[i]; }
    const T& operator[](size_t i) const noexcept { return p_[i]; }
    T* begin() noexcept { return p_.get(); }
    T* end() noexcept { return p_.get() + n_; }

private:
    size_t n_;
    std::unique_ptr<T[]> p_;
};

template <class Sig>
class FunctionRef;
template <class R, class... A>
class FunctionRef<R(A...)>
{
    void* obj_;
    R (*call_)(void*, A...);

public:
    template <class F,
              class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...>>>
    FunctionRef(F&& f)
    {
        if constexpr (std::is_function_v<std::remove_reference_t<F>>)
        {
            obj_ = reinterpret_cast<void*>(&f);
            call_ = [](void* o, A... a) -> R
            { return reinterpret_cast<std::remove_reference_t<F>*>(o)(std::forward<A>(a)...); };
        }
        else
        {
            obj_ = const_cast<void*>(static_cast<const void*>(std::addressof(f)));
            call_ = [](void* o, A... a) -> R
            { return static_cast<R>((*static_cast<std::remove_reference_t<F>*>(o))(std::forward<A>(a)...)); };
        }
    }
    R operator()(A... a) const { return call_(obj_, std::forward<A>(a)...); }
};

namespace shim
{
    struct SvHash
    {
        size_t operator()(const std::string& s) const { return std::hash<std::string>{}(s); }
    };
    template <class K>
    struct DefaultHash : std::hash<K>
    {
    };
}    // namespace shim
template <class K, class V, class H = shim::DefaultHash<K>, class E = std::equal_to<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E>
{
public:
    using std::unordered_map<K, V, H, E>::unordered_map;
    bool contains(const K& k) const { return this->find(k) != this->end(); }
    void erase(typename std::unordered_map<K, V, H, E>::iterator it) { std::unordered_map<K, V, H, E>::erase(it); }
    size_t erase(const K& k) { return std::unordered_map<K, V, H, E>::erase(k); }
};

#ifdef IRV
class Mutex
{
public:
    void Lock() noexcept {}
    void Unlock() noexcept {}
    bool TryLock() noexcept { return true; }
    void ReaderLock() noexcept {}
    void ReaderUnlock() noexcept {}
    void AssertHeld() const noexcept {}
};
#else
class Mutex;
class Condition
{
public:
    template <class T>
    Condition(bool (*f)(T*), T* a) : fn_([f, a]() { return f(a); })
    {
    }
    template <class T>
    Condition(bool (*f)(const T*), const T* a) : fn_([f, a]() { return f(a); })
    {
    }
    std::function<bool()> fn_;
};
class Time
{
public:
    int64_t ns = 0;
    friend bool operator<(Time a, Time b) { return a.ns < b.ns; }
    friend bool operator>(Time a, Time b) { return a.ns > b.ns; }
    friend bool operator>=(Time a, Time b) { return a.ns >= b.ns; }
    friend bool operator<=(Time a, Time b) { return a.ns <= b.ns; }
};
class Mutex
{
    std::mutex m_;
    std::condition_variable cv_;

public:
    void Lock() { m_.lock(); }
    void Unlock()
    {
        m_.unlock();
        cv_.notify_all();
    }
    bool TryLock() { return m_.try_lock(); }
    void ReaderLock() { m_.lock(); }
    void ReaderUnlock() { Unlock(); }
    void AssertHeld() const {}
    bool AwaitWithDeadline(const Condition& c, Time deadline)
    {
        std::unique_lock<std::mutex> l(m_, std::adopt_lock);
        auto tp = std::chrono::system_clock::time_point(
            std::chrono::duration_cast<std::chrono::system_clock::duration>(
                std::chrono::nanoseconds(deadline.ns)));
        bool r = cv_.wait_until(l, tp, [&]() { return c.fn_(); });
        l.release();
        return r;
    }
};
#endif
class MutexLock
{
    Mutex* m_;

public:
    explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
    ~MutexLock() { m_->Unlock(); }
    MutexLock(const MutexLock&) = delete;
};
#ifdef IRV
class Condition
{
public:
    template <class T>
    Condition(bool (*)(const T*), const T*)
    {
    }
};
class Time
{
public:
    int64_t ns = 0;
    friend bool operator<(Time a, Time b) { return a.ns < b.ns; }
    friend bool operator>=(Time a, Time b) { return a.ns >= b.ns; }
};
#endif
struct Duration
{
    int64_t ns = 0;
};
inline Duration Seconds(int64_t s) { return Duration{s * 1000000000}; }
inline Duration Milliseconds(int64_t s) { return Duration{s * 1000000}; }
inline Time operator+(Time t, Duration d) { return Time{t.ns + d.ns}; }
inline Duration operator-(Time a, Time b) { return Duration{a.ns - b.ns}; }
inline bool operator<(Duration a, Duration b) { return a.ns < b.ns; }
inline bool operator>(Duration a, Duration b) { return a.ns > b.ns; }
inline void SleepFor(Duration d)
{
    timespec ts{time_t(d.ns / 1000000000), long(d.ns % 1000000000)};
    nanosleep(&ts, nullptr);
}
inline Time UniversalEpoch() { return Time{}; }
inline Time Now()
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return Time{int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec};
}
inline Time TimeFromTimespec(timespec ts) { return Time{int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec}; }
struct TimeZone
{
};
inline TimeZone UTCTimeZone() { return {}; }
constexpr char RFC3339_full[] = "%Y-%m-%dT%H:%M:%E*S%Ez";
inline std::string FormatTime(std::string_view, Time t, TimeZone) { return std::to_string(t.ns); }

// ---- strings
inline bool StartsWith(std::string_view a, std::string_view b) { return a.size() >= b.size() && a.substr(0, b.size()) == b; }
inline bool EndsWith(std::string_view a, std::string_view b)
{
    return a.size() >= b.size() && a.substr(a.size() - b.size()) == b;
}
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i]))
            return false;
    return true;
}
inline bool EndsWithIgnoreCase(std::string_view a, std::string_view b)
{
    return a.size() >= b.size() && EqualsIgnoreCase(a.substr(a.size() - b.size()), b);
}
struct AlphaNum
{
    std::string s;
    std::string_view v;
    AlphaNum(const std::string& x) : v(x) {}
    AlphaNum(std::string_view x) : v(x) {}
    AlphaNum(const char* x) : v(x ? std::string_view(x) : std::string_view()) {}
    AlphaNum(int x) : s(std::to_string(x)), v(s) {}
    AlphaNum(unsigned x) : s(std::to_string(x)), v(s) {}
    AlphaNum(long x) : s(std::to_string(x)), v(s) {}
    AlphaNum(unsigned long x) : s(std::to_string(x)), v(s) {}
    AlphaNum(long long x) : s(std::to_string(x)), v(s) {}
    AlphaNum(unsigned long long x) : s(std::to_string(x)), v(s) {}
    AlphaNum(const AlphaNum&) = delete;
};
inline std::string StrCat() { return {}; }
inline std::string StrCat(const AlphaNum& a) { return std::string(a.v); }
inline std::string StrCat(const AlphaNum& a, const AlphaNum& b)
{
    std::string r;
    r.reserve(a.v.size() + b.v.size());
    r.append(a.v.data(), a.v.size());
    r.append(b.v.data(), b.v.size());
    return r;
}
inline std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c)
{
    std::string r;
    r.reserve(a.v.size() + b.v.size() + c.v.size());
    r.append(a.v.data(), a.v.size());
    r.append(b.v.data(), b.v.size());
    r.append(c.v.data(), c.v.size());
    return r;
}
template <class... T>
inline std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d, const T&... t)
{
    return StrCat(StrCat(StrCat(a, b, c), d), StrCat(t...));
}
inline bool SimpleAtoi(std::string_view s, int* out)
{
    std::string t(s);
    errno = 0;
    char* e = nullptr;
    long v = strtol(t.c_str(), &e, 10);
    while (e && isspace((unsigned char)*e))
        ++e;
    if (t.empty() || !e || *e || errno || v > INT32_MAX || v < INT32_MIN)
        return false;
    *out = int(v);
    return true;
}

// Splitting: only single-character delimiters are used.
struct SkipEmpty
{
};
class Splitter
{
    std::string_view t_;
    char d_;
    bool skip_;

public:
    Splitter(std::string_view t, char d, bool skip) : t_(t), d_(d), skip_(skip) {}
    class iterator
    {
        std::string_view t_;
        char d_;
        bool skip_;
        size_t b_, e_;    // current piece [b_, e_); b_ > size means the end
        void find_end()
        {
            e_ = t_.find(d_, b_);
            if (e_ == std::string_view::npos)
                e_ = t_.size();
        }
        void settle()
        {
            while (b_ <= t_.size())
            {
                find_end();
                if (!skip_ || e_ > b_)
                    return;
                b_ = e_ + 1;
            }
        }

    public:
        iterator(std::string_view t, char d, bool skip, size_t b) : t_(t), d_(d), skip_(skip), b_(b), e_(b) { settle(); }
        std::string_view operator*() const { return t_.substr(b_, e_ - b_); }
        iterator& operator++()
        {
            b_ = e_ + 1;
            settle();
            return *this;
        }
        bool operator!=(const iterator& o) const { return (b_ > t_.size()) != (o.b_ > o.t_.size()) || (b_ <= t_.size() && b_ != o.b_); }
    };
    iterator begin() const { return iterator(t_, d_, skip_, 0); }
    iterator end() const { return iterator(t_, d_, skip_, t_.size() + 1); }
    template <class C, class = decltype(std::declval<C&>().emplace_back(std::string_view()))>
    operator C() const
    {
        C out;
        size_t b = 0;
        while (true)
        {
            size_t e = t_.find(d_, b);
            std::string_view piece = t_.substr(b, e == std::string_view::npos ? e : e - b);
            if (!skip_ || !piece.empty())
                out.emplace_back(piece);
            if (e == std::string_view::npos)
                break;
            b = e + 1;
        }
        return out;
    }
};
inline Splitter StrSplit(std::string_view t, char d) { return Splitter(t, d, false); }
inline Splitter StrSplit(std::string_view t, char d, SkipEmpty) { return Splitter(t, d, true); }
inline Splitter StrSplit(std::string_view t, const char* d) { return Splitter(t, d[0], false); }
template <class C>
inline std::string StrJoin(const C& c, std::string_view sep)
{
    std::string r;
    bool first = true;
    for (auto&& e : c)
    {
        if (!first)
            r.append(sep);
        first = false;
        r.append(e);
    }
    return r;
}

inline std::string WebSafeBase64Escape(std::string_view src)
{
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    std::string o;
    size_t i = 0;
    while (i + 3 <= src.size())
    {
        uint32_t v = ((unsigned char)src[i] << 16) | ((unsigned char)src[i + 1] << 8) | (unsigned char)src[i + 2];
        for (int k = 18; k >= 0; k -= 6)
            o.push_back(T[(v >> k) & 63]);
        i += 3;
    }
    if (src.size() - i == 1)
    {
        uint32_t v = (unsigned char)src[i] << 16;
        o.push_back(T[(v >> 18) & 63]);
        o.push_back(T[(v >> 12) & 63]);
    }
    else if (src.size() - i == 2)
    {
        uint32_t v = ((unsigned char)src[i] << 16) | ((unsigned char)src[i + 1] << 8);
        o.push_back(T[(v >> 18) & 63]);
        o.push_back(T[(v >> 12) & 63]);
        o.push_back(T[(v >> 6) & 63]);
    }
    return o;
}
inline bool WebSafeBase64Unescape(std::string_view src, std::string* out)
{
    std::string r;
    uint32_t acc = 0;
    int bits = 0;
    size_t n = src.size();
    while (n > 0 && src[n - 1] == '=')
        --n;
    for (size_t i = 0; i < n; ++i)
    {
        char c = src[i];
        int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '-' ? 62 : c == '_' ? 63 : -1;
        if (v < 0)
        {
            out->clear();
            return false;
        }
        acc = (acc << 6) | v;
        bits += 6;
        if (bits >= 8)
        {
            bits -= 8;
            r.push_back(char((acc >> bits) & 0xFF));
        }
    }
    if (n % 4 == 1 || (acc & ((1u << bits) - 1)))
    {
        out->clear();
        return false;
    }
    *out = std::move(r);
    return true;
}
inline std::string Utf8SafeCEscape(std::string_view s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '\n')
            o += "\\n";
        else if (c == '"' || c == '\\')
        {
            o.push_back('\\');
            o.push_back(c);
        }
        else if (c < 0x20)
        {
            char b[8];
            snprintf(b, sizeof b, "\\%03o", c);
            o += b;
        }
        else
            o.push_back(c);
    }
    return o;
}

// ---- formatting (messages and logs only)
namespace shim
{
    struct Fmt
    {
        Fmt(const char* f) : f_(f) {}
        Fmt(const std::string& f) : f_(f) {}
        Fmt(std::string_view f) : f_(f) {}
        std::string_view f_;
    };
}    // namespace shim
template <class... A>
using FormatSpec = shim::Fmt;
class FormatRawSink
{
};
namespace shim
{
    template <class T>
    auto printable(const T& v)
    {
        if constexpr (std::is_null_pointer_v<T>)
            return std::string("(nil)");
        else if constexpr (std::is_convertible_v<const T&, std::string_view>)
            return std::string(std::string_view(v));
        else if constexpr (std::is_pointer_v<T>)
        {
            char b[32];
            snprintf(b, sizeof b, "%p", (const void*)v);
            return std::string(b);
        }
        else if constexpr (std::is_same_v<T, char>)
            return std::string(1, v);
        else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>)
        {
            if constexpr (std::is_enum_v<T>)
                return std::to_string((long long)v);
            else
                return std::to_string(v);
        }
        else
            return std::string("?");
    }
    inline std::string fmt(std::string_view f, std::vector<std::string> args)
    {
        std::string o;
        size_t k = 0;
        for (size_t i = 0; i < f.size(); ++i)
        {
            if (f[i] != '%')
            {
                o.push_back(f[i]);
                continue;
            }
            ++i;
            if (i < f.size() && f[i] == '%')
            {
                o.push_back('%');
                continue;
            }
            while (i < f.size() && (strchr("#-+ .*hlzjt", f[i]) || (f[i] >= '0' && f[i] <= '9')))
                ++i;
            if (k < args.size())
                o += args[k++];
        }
        return o;
    }
}    // namespace shim
#ifdef IRV
template <class F, class... A>
inline std::string StrFormat(const F&, const A&...)
{
    return {};
}
template <class S, class F, class... A>
inline bool Format(S*, const F&, const A&...)
{
    return true;
}
template <class F, class... A>
inline int PrintF(const F&, const A&...)
{
    return 0;
}
template <class F, class... A>
inline int FPrintF(FILE*, const F&, const A&...)
{
    return 0;
}
#else
inline std::string_view fmtview(const shim::Fmt& s) { return s.f_; }
template <class F, class... A>
inline std::string StrFormat(const F& f, const A&... a)
{
    return shim::fmt(fmtview(f), {shim::printable(a)...});
}
template <class S, class F, class... A>
inline bool Format(S* sink, const F& f, const A&... a)
{
    AbslFormatFlush(sink, StrFormat(f, a...));
    return true;
}
template <class F, class... A>
inline int PrintF(const F& f, const A&... a)
{
    return fputs(StrFormat(f, a...).c_str(), stdout);
}
template <class F, class... A>
inline int FPrintF(FILE* fp, const F& f, const A&... a)
{
    return fputs(StrFormat(f, a...).c_str(), fp);
}
#endif
inline void AbslFormatFlush(std::string* s, std::string_view v) { s->append(v); }

struct FailureSignalHandlerOptions
{
    bool symbolize_stacktrace = true, use_alternate_stack = true;
    int alarm_on_failure_secs = 0;
    bool call_previous_handler = false;
    void (*writerfn)(const char*) = nullptr;
};
inline void InstallFailureSignalHandler(const FailureSignalHandlerOptions&) {}
inline void InitializeSymbolizer(const char*) {}
}    // namespace absl
