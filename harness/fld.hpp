// helpers for the harnesses over the Kokkos stand-in
#pragma once
#include "h.hpp"
#include <Kokkos_Core.hpp>
#include "NeoFOAM/fields/field.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
using namespace H;
using namespace NeoFOAM;
inline Executor mkExec(long k)
{
    if (k == 0) return SerialExecutor();
    if (k == 1) return CPUExecutor();
    return GPUExecutor();
}
inline Executor rndExec() { return mkExec(rnd(3)); }
template<class T> struct RV { static T get() { return (T)(rnd(401) - (std::is_signed_v<T> ? 200 : 0)); } };
template<> struct RV<double> { static double get() { return (double)(rnd(4001) - 2000) / 8; } };
template<> struct RV<Vector> { static Vector get() { return Vector(RV<double>::get(), RV<double>::get(), RV<double>::get()); } };
template<class T> T rv() { return RV<T>::get(); }
template<class T> bool same(const T& a, const T& b) { return a == b; }
inline bool same(const Vector& a, const Vector& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
inline bool near(double a, double b, double s = 1) { return std::fabs(a - b) <= 1e-9 * (s + std::fabs(a) + std::fabs(b)); }
inline bool near(const Vector& a, const Vector& b, double s = 1) { return near(a[0], b[0], s) && near(a[1], b[1], s) && near(a[2], b[2], s); }
template<class T> std::vector<T> get(const Field<T>& f) { return std::vector<T>(f.data(), f.data() + f.size()); }
template<class T> std::vector<T> rvec(size_t n)
{
    std::vector<T> v;
    v.reserve(n);
    for (size_t i = 0; i < n; i++) v.push_back(rv<T>());
    return v;
}
inline size_t fsize() { return chance(1, 8) ? 0 : chance(1, 3) ? 1 + rnd(4) : 1 + rnd(40); }
// built without the code under test's own copies: raw storage filled by hand
template<class T> Field<T> mk(const Executor& e, const std::vector<T>& v)
{
    Field<T> f(e, v.size());
    CHECK(f.size() == v.size(), "a new field has another size than requested");
    for (size_t i = 0; i < v.size(); i++) f.data()[i] = v[i];
    return f;
}
template<class T> void is(const Field<T>& f, const std::vector<T>& v, const std::string& what)
{
    CHECK(f.size() == v.size(), what + ": size is " + std::to_string(f.size()) + " instead of " + std::to_string(v.size()));
    for (size_t i = 0; i < v.size(); i++) CHECK(same(f.data()[i], v[i]), what + ": element " + std::to_string(i) + " of " + std::to_string(v.size()) + " is wrong");
}
inline size_t alt(const Executor& e) { return e.index(); }
template<class T> const char* tname() { return std::is_same_v<T, double> ? "double" : std::is_same_v<T, Vector> ? "Vector" : std::is_signed_v<T> ? "int" : "unsigned"; }
inline void reseed() { Kokkos::shim::seed(H::next()); }
inline void stats()
{
    printf("STATS {\"evaluations\": %ld, \"nontrivial\": %ld}\n", evaluations, nontrivial);
}
