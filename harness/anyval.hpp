// values of many types stored in std::any, with an exact comparison
#pragma once
#include "h.hpp"
namespace H
{
struct Opaque { long a; std::string s; bool operator==(const Opaque&) const = default; };
// a value together with how to compare it
struct Val
{
    std::any a;
    std::function<bool(const std::any&)> eq;
    std::string show;
    int kind = 0;
};
template<class T>
Val mk(T v, int kind, std::string show)
{
    Val r;
    r.a = v;
    r.kind = kind;
    r.show = std::move(show);
    r.eq = [v](const std::any& x)
    {
        auto p = std::any_cast<T>(&x);
        return p && *p == v;
    };
    return r;
}
enum { KInt, KDouble, KString, KOpaque, KBool, KVec, KChar, KSize, KEmpty, KFloat, NKIND };
inline Val rval()
{
    long k = rnd(NKIND);
    long n = rint_();
    switch (k)
    {
        case KInt: return mk<int>((int)n, KInt, "int " + std::to_string((int)n));
        case KDouble: return mk<double>(n * 0.5, KDouble, "double " + std::to_string(n * 0.5));
        case KString: { auto s = rstr(); return mk<std::string>(s, KString, "string \"" + esc(s) + "\""); }
        case KOpaque: return mk<Opaque>({n, rstr()}, KOpaque, "Opaque " + std::to_string(n));
        case KBool: return mk<bool>(n & 1, KBool, "bool");
        case KVec: { std::vector<int> v(rnd(4), (int)n); return mk<std::vector<int>>(v, KVec, "vector<int>"); }
        case KChar: return mk<char>((char)n, KChar, "char");
        case KSize: return mk<size_t>((size_t)n, KSize, "size_t");
        case KFloat: return mk<float>((float)n, KFloat, "float");
        default:
        {
            Val r;
            r.kind = KEmpty;
            r.show = "empty any";
            r.eq = [](const std::any& x) { return !x.has_value(); };
            return r;
        }
    }
}
}
