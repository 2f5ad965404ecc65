// Stand-in for the part of the Kokkos API that NeoFOAM uses.  It is not Kokkos: it implements the documented
// semantics the checks assume (cxv/kokkos.py states the same assumptions), in an order that is deliberately
// adversarial: iterations run in pseudo-random order, reductions and scans in chunks of pseudo-random size.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <functional>
#include <iosfwd>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#ifdef CXV_THREADS
#include <atomic>
#include <thread>
#endif
#include <vector>

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_ENABLE_SERIAL

namespace Kokkos
{
struct HostSpace {};
struct DeviceSpace {};
namespace shim
{
inline std::uint64_t& rng() { static std::uint64_t s = 88172645463325252ull; return s; }
inline std::uint64_t next() { auto& x = rng(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
inline void seed(std::uint64_t s) { rng() = s * 2654435761u + 88172645463325252ull; }
struct Block { void* p; std::size_t n; int space; };
inline std::vector<Block>& blocks() { static std::vector<Block> b; return b; }
inline void* record(std::size_t n, int space)
{
    void* p = std::malloc(n ? n : 1);
    std::memset(p, 0xCD, n);
    blocks().push_back({p, n, space});
    return p;
}
inline long& badFree() { static long n = 0; return n; }
inline std::vector<std::size_t> order(std::size_t b, std::size_t e)
{
    std::vector<std::size_t> v;
    for (std::size_t i = b; i < e; i++) v.push_back(i);
    for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
    return v;
}
template<class E> struct Id;
}
#define NF_SHIM_SPACE(NAME, MEM, ID)                                                                                                                                              \
    struct NAME                                                                                                                                                                 \
    {                                                                                                                                                                           \
        using memory_space = MEM;                                                                                                                                               \
        using execution_space = NAME;                                                                                                                                           \
        bool operator==(const NAME&) const { return true; }                                                                                                                     \
        static constexpr const char* name() { return #NAME; }                                                                                                                   \
        int concurrency() const { return 4; }                                                                                                                                   \
        void fence() const {}                                                                                                                                                   \
    };                                                                                                                                                                          \
    namespace shim { template<> struct Id<NAME> { static constexpr int id = ID; }; }
NF_SHIM_SPACE(Serial, HostSpace, 0)
NF_SHIM_SPACE(HostParallel, HostSpace, 1)
NF_SHIM_SPACE(Device, DeviceSpace, 2)
using DefaultHostExecutionSpace = HostParallel;
using DefaultExecutionSpace = Device;

struct InitializationSettings {};
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
struct ScopeGuard { template<class... A> ScopeGuard(A&&...) {} };
inline void fence() {}
inline void fence(const std::string&) {}
inline int device_id() { return 0; }
inline int num_devices() { return 1; }
[[noreturn]] inline void abort(const char* m) { std::fprintf(stderr, "%s\n", m); std::abort(); }

template<class S> void* kokkos_malloc(const std::string&, std::size_t n)
{
    return n ? shim::record(n, shim::Id<S>::id) : nullptr;
}
template<class S> void* kokkos_malloc(std::size_t n) { return kokkos_malloc<S>("", n); }
template<class S> void kokkos_free(void* p)
{
    if (!p) return;
    auto& b = shim::blocks();
    for (std::size_t i = 0; i < b.size(); i++)
        if (b[i].p == p && b[i].space == shim::Id<S>::id)
        {
            b.erase(b.begin() + (std::ptrdiff_t)i);
            std::free(p);
            return;
        }
    shim::badFree()++;
}
template<class S> void* kokkos_realloc(void* p, std::size_t n)
{
    std::size_t old = 0;
    bool found = false;
    for (auto& x : shim::blocks())
        if (x.p == p && x.space == shim::Id<S>::id) { old = x.n; found = true; }
    if (!found) { shim::badFree()++; return kokkos_malloc<S>("", n); }
    void* q = shim::record(n, shim::Id<S>::id);
    std::memcpy(q, p, std::min(n, old));
    kokkos_free<S>(p);
    return q;
}

struct MemoryUnmanaged {};
template<class T, class Space, class Traits = void> struct View
{
    using value_type = std::remove_pointer_t<T>;
    T p;
    std::size_t n;
    View(T p_, std::size_t n_) : p(p_), n(n_) {}
    std::size_t size() const { return n; }
    T data() const { return p; }
    value_type& operator()(std::size_t i) const { return p[i]; }
    value_type& operator[](std::size_t i) const { return p[i]; }
};
template<class T, class S, class M, class U, class S2, class M2> void deep_copy(const View<T, S, M>& d, const View<U, S2, M2>& s)
{
    if (d.n != s.n) abort("deep_copy: extents differ");
    if ((const void*)d.p == (const void*)s.p) return;
    for (std::size_t i = 0; i < s.n; i++) d.p[i] = s.p[i];
}

template<class A, class B> struct pair
{
    A first;
    B second;
};

template<class E> struct RangePolicy
{
    std::size_t b, e;
    RangePolicy(std::size_t b_, std::size_t e_) : b(b_), e(e_ < b_ ? b_ : e_) {}
    RangePolicy(const E&, std::size_t b_, std::size_t e_) : b(b_), e(e_ < b_ ? b_ : e_) {}
};

#ifdef CXV_THREADS
// really concurrent iterations, for the race detector: every iteration goes to a random one of a few threads
template<class E, class K> void parallel_for(const std::string&, const RangePolicy<E>& r, const K& k)
{
    auto ix = shim::order(r.b, r.e);
    if (ix.empty()) return;
    std::vector<std::vector<std::size_t>> part(3);
    for (std::size_t n = 0; n < ix.size(); n++) part[shim::next() % part.size()].push_back(ix[n]);
    std::vector<std::thread> ts;
    for (auto& p : part) ts.emplace_back([&k, &p] { for (auto i : p) k(i); });
    for (auto& t : ts) t.join();
}
#else
template<class E, class K> void parallel_for(const std::string&, const RangePolicy<E>& r, const K& k)
{
    for (auto i : shim::order(r.b, r.e)) k(i);
}
#endif
template<class E, class K> void parallel_for(const RangePolicy<E>& r, const K& k) { parallel_for("", r, k); }

template<class T> struct ReducerBase
{
    using value_type = T;
    using reducer = ReducerBase;
    T* v;
    explicit ReducerBase(T& x) : v(&x) {}
    T& reference() const { return *v; }
};
template<class T, class Space = HostSpace> struct Sum : ReducerBase<T>
{
    using reducer = Sum;
    using ReducerBase<T>::ReducerBase;
    void init(T& x) const { x = T(); }
    void join(T& a, const T& b) const { a += b; }
};
template<class T, class Space = HostSpace> struct Prod : ReducerBase<T>
{
    using reducer = Prod;
    using ReducerBase<T>::ReducerBase;
    void init(T& x) const { x = T(1); }
    void join(T& a, const T& b) const { a *= b; }
};
template<class T, class Space = HostSpace> struct Max : ReducerBase<T>
{
    using reducer = Max;
    using ReducerBase<T>::ReducerBase;
    void init(T& x) const { x = std::numeric_limits<T>::lowest(); }
    void join(T& a, const T& b) const { if (b > a) a = b; }
};
template<class T, class Space = HostSpace> struct Min : ReducerBase<T>
{
    using reducer = Min;
    using ReducerBase<T>::ReducerBase;
    void init(T& x) const { x = std::numeric_limits<T>::max(); }
    void join(T& a, const T& b) const { if (b < a) a = b; }
};
template<class T, class = void> struct is_reducer : std::false_type {};
template<class T> struct is_reducer<T, std::void_t<typename T::reducer>> : std::true_type {};

template<class E, class K, class T> void parallel_reduce(const std::string&, const RangePolicy<E>& r, const K& k, T& value)
{
    auto ix = shim::order(r.b, r.e);
    if constexpr (is_reducer<T>::value)
    {
        typename T::value_type acc;
        value.init(acc);
        for (std::size_t i = 0; i < ix.size();)
        {
            typename T::value_type part;
            value.init(part);
            std::size_t c = 1 + shim::next() % 3;
            for (; c && i < ix.size(); c--, i++) k(ix[i], part);
            value.join(acc, part);
        }
        value.reference() = acc;
    }
    else
    {
        T acc = T();
        for (std::size_t i = 0; i < ix.size();)
        {
            T part = T();
            std::size_t c = 1 + shim::next() % 3;
            for (; c && i < ix.size(); c--, i++) k(ix[i], part);
            acc += part;
        }
        value = acc;
    }
}
template<class E, class K, class T> void parallel_reduce(const RangePolicy<E>& r, const K& k, T& value) { parallel_reduce("", r, k, value); }

namespace shim
{
template<class K> struct Arg2;
template<class C, class R, class I, class T, class B> struct Arg2<R (C::*)(I, T, B) const> { using type = std::remove_reference_t<T>; };
}
template<class E, class K, class T> void parallel_scan(const std::string&, const RangePolicy<E>& r, const K& k, T& total)
{
    // chunk sums first (possibly visiting an index with final == false), then the final pass in random chunk order
    using V = typename shim::Arg2<decltype(&K::operator())>::type;
    std::vector<std::pair<std::size_t, std::size_t>> ch;
    for (std::size_t i = r.b; i < r.e;)
    {
        std::size_t c = std::min<std::size_t>(1 + shim::next() % 3, r.e - i);
        ch.push_back({i, i + c});
        i += c;
    }
    std::vector<V> part(ch.size(), V());
    for (auto q : shim::order(0, ch.size()))
        for (std::size_t i = ch[q].first; i < ch[q].second; i++) k(i, part[q], false);
    std::vector<V> off(ch.size(), V());
    V sum = V();
    for (std::size_t q = 0; q < ch.size(); q++) { off[q] = sum; sum += part[q]; }
    for (auto q : shim::order(0, ch.size()))
    {
        V u = off[q];
        for (std::size_t i = ch[q].first; i < ch[q].second; i++) k(i, u, true);
    }
    total = sum;
}
template<class E, class K> void parallel_scan(const std::string& n, const RangePolicy<E>& r, const K& k)
{
    typename shim::Arg2<decltype(&K::operator())>::type t {};
    parallel_scan(n, r, k, t);
}
template<class E, class K> void parallel_scan(const RangePolicy<E>& r, const K& k) { parallel_scan("", r, k); }

#ifdef CXV_THREADS
namespace shim
{
// numbers one by one: a vector is updated component by component
template<class T, class U> T fadd(T* p, const U& v, int sign)
{
    if constexpr (std::is_integral_v<T>) return std::atomic_ref<T>(*p).fetch_add((T)(sign < 0 ? T(0) - (T)v : (T)v), std::memory_order_relaxed);
    else if constexpr (std::is_floating_point_v<T>) return std::atomic_ref<T>(*p).fetch_add((T)(sign < 0 ? -v : v), std::memory_order_relaxed);
    else
    {
        static_assert(sizeof(T) % sizeof(double) == 0);
        T w = v, o = w;
        for (std::size_t i = 0; i < sizeof(T) / sizeof(double); i++)
            reinterpret_cast<double*>(&o)[i] = fadd(reinterpret_cast<double*>(p) + i, reinterpret_cast<double*>(&w)[i], sign);
        return o;
    }
}
}
template<class T, class U> void atomic_add(T* p, const U& v) { shim::fadd(p, v, 1); }
template<class T, class U> void atomic_sub(T* p, const U& v) { shim::fadd(p, v, -1); }
template<class T> void atomic_increment(T* p) { shim::fadd(p, 1, 1); }
template<class T> void atomic_decrement(T* p) { shim::fadd(p, 1, -1); }
template<class T, class U> void atomic_store(T* p, const U& v) { std::atomic_ref<T>(*p).store((T)v, std::memory_order_relaxed); }
template<class T, class U> void atomic_assign(T* p, const U& v) { atomic_store(p, v); }
template<class T> T atomic_load(T* p) { return std::atomic_ref<T>(*p).load(std::memory_order_relaxed); }
template<class T, class U> T atomic_fetch_add(T* p, const U& v) { return shim::fadd(p, v, 1); }
template<class T, class U> T atomic_fetch_sub(T* p, const U& v) { return shim::fadd(p, v, -1); }
template<class T, class U> T atomic_add_fetch(T* p, const U& v) { return shim::fadd(p, v, 1) + v; }
template<class T, class U> T atomic_exchange(T* p, const U& v) { return std::atomic_ref<T>(*p).exchange((T)v, std::memory_order_relaxed); }
#else
template<class T, class U> void atomic_add(T* p, const U& v) { *p += v; }
template<class T, class U> void atomic_sub(T* p, const U& v) { *p -= v; }
template<class T> void atomic_increment(T* p) { *p += 1; }
template<class T> void atomic_decrement(T* p) { *p -= 1; }
template<class T, class U> void atomic_assign(T* p, const U& v) { *p = v; }
template<class T, class U> void atomic_store(T* p, const U& v) { *p = v; }
template<class T> T atomic_load(T* p) { return *p; }
template<class T, class U> T atomic_fetch_add(T* p, const U& v) { T o = *p; *p += v; return o; }
template<class T, class U> T atomic_fetch_sub(T* p, const U& v) { T o = *p; *p -= v; return o; }
template<class T, class U> T atomic_add_fetch(T* p, const U& v) { *p += v; return *p; }
template<class T, class U> T atomic_exchange(T* p, const U& v) { T o = *p; *p = v; return o; }
#endif

using std::sqrt;
using std::abs;
using std::pow;
using std::max;
using std::min;
inline std::size_t& shimDummy() { static std::size_t d; return d; }
} // namespace Kokkos
