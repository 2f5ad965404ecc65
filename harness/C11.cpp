#include "fld.hpp"
template<class T> struct Tab { const T* t; T operator()(const size_t i) const { return t[i]; } };
template<class T> static void caseOf()
{
    begin();
    reseed();
    auto e = rndExec();
    size_t n = fsize();
    auto va = rvec<T>(n), vb = rvec<T>(n), vo = rvec<T>(5);
    auto a = mk(e, va), b = mk(e, vb), o = mk(e, vo);
    auto ra = va;
    T x = rv<T>();
    size_t lo = rnd((long)n + 1), hi = lo + rnd((long)(n - lo) + 1);
    bool rg = chance(1, 2);
    if (!rg) { lo = 0; hi = n; }
    long op = rnd(16);
    bool self = chance(1, 4);
    const Field<T>& rb = self ? a : b;
    if (self) vb = va;
    step(std::string(tname<T>()) + " executor " + std::to_string(alt(e)) + " n=" + std::to_string(n) + " op " + std::to_string(op) + " range [" + std::to_string(lo) + "," + std::to_string(hi) + ") given=" + std::to_string(rg) + " self=" + std::to_string(self));
    nontrivial += n > 1;
    std::string w = last();
    switch (op)
    {
        case 0: if (rg) fill(a, x, {lo, hi}); else fill(a, x); for (size_t i = lo; i < hi; i++) ra[i] = x; break;
        case 1:
        {
            auto src = rvec<T>(n + rnd(3));
            View<const T> vw(src.data(), src.size());
            if (rg) setField(a, vw, {lo, hi}); else setField(a, vw);
            for (size_t i = lo; i < hi; i++) ra[i] = src[i];
            break;
        }
        case 2:
        {
            auto t = rvec<T>(n + 1);
            if (rg) map(a, Tab<T> {t.data()}, {lo, hi}); else if (chance(1, 2)) map(a, Tab<T> {t.data()}); else a.apply(Tab<T> {t.data()});
            for (size_t i = lo; i < hi; i++) ra[i] = t[i];
            break;
        }
        case 3: add(a, rb); for (size_t i = 0; i < n; i++) ra[i] = va[i] + vb[i]; break;
        case 4: sub(a, rb); for (size_t i = 0; i < n; i++) ra[i] = va[i] - vb[i]; break;
        case 5: a += rb; for (size_t i = 0; i < n; i++) ra[i] = va[i] + vb[i]; break;
        case 6: a -= rb; for (size_t i = 0; i < n; i++) ra[i] = va[i] - vb[i]; break;
        case 7: a = x; for (auto& q : ra) q = x; break;
        case 8:
        {
            auto r = a + rb;
            for (size_t i = 0; i < n; i++) va[i] = va[i] + vb[i];
            is(r, va, w + ": sum");
            CHECK(alt(r.exec()) == alt(e), "the sum lives on another executor");
            break;
        }
        case 9:
        {
            auto r = a - rb;
            for (size_t i = 0; i < n; i++) va[i] = va[i] - vb[i];
            is(r, va, w + ": difference");
            CHECK(alt(r.exec()) == alt(e), "the difference lives on another executor");
            break;
        }
        case 10:
        {
            auto vc = rvec<T>(fsize());
            auto c = mk(e, vc);
            a = self ? a : c;
            if (!self) { ra = vc; is(c, vc, w + ": source of an assignment"); }
            break;
        }
        case 11:
            if constexpr (!std::is_same_v<T, Vector>) { mul(a, rb); for (size_t i = 0; i < n; i++) ra[i] = va[i] * vb[i]; }
            break;
        case 12:
            if constexpr (std::is_same_v<T, double> || std::is_same_v<T, Vector>)
            {
                double f = rv<double>();
                if (chance(1, 3)) scalarMul(a, f); else if (chance(1, 2)) a *= f;
                else
                {
                    auto r = a * f;
                    auto vr = va;
                    for (auto& q : vr) q = q * f;
                    is(r, vr, w + ": scaled copy");
                    break;
                }
                for (auto& q : ra) q = q * f;
            }
            break;
        case 13:
            if constexpr (std::is_same_v<T, double>)
            {
                for (size_t i = 0; i < n; i++) va[i] = va[i] * vb[i];
                if (chance(1, 2)) { a *= rb; ra = va; }
                else { auto r = a * rb; is(r, va, w + ": product"); }
            }
            break;
        case 14:
        {
            bool u = chance(1, 2);
            if (u) { for (size_t i = 0; i < n; i++) a.data()[i] = x, ra[i] = x; if (n && chance(1, 2)) { size_t i = rnd((long)n); a.data()[i] = va[i]; ra[i] = va[i]; } }
            bool want = true;
            for (auto& q : ra) want = want && same(q, x);
            CHECK(equal(a, x) == want, w + ": equal to a value");
            break;
        }
        default:
        {
            auto c = mk(rndExec(), va);
            bool want = true;
            if (n && chance(1, 2)) { size_t i = rnd((long)n); c.data()[i] = rv<T>(); want = same(c.data()[i], va[i]); }
            const Field<T>&ca = a, &cc = c;
            CHECK(equal(ca, cc) == want, w + ": equal fields");
            auto v2 = va;
            if (chance(1, 2) || v2.empty()) v2.push_back(rv<T>()); else v2.pop_back();
            auto d = mk(e, v2);
            const Field<T>& cd = d;
            CHECK(!equal(ca, cd) && !equal(cd, ca), w + ": fields of different sizes are equal");
            auto cv = get(c);
            bool w2 = true;
            for (size_t i = 0; i < n; i++) w2 = w2 && same(cv[i], va[i]);
            CHECK(w2 == want, w + ": equal changed an operand");
            CHECK(!throws<DimensionMismatch>([&] { add(a, b); }), w + ": operands of equal length are rejected");
            for (size_t i = 0; i < n; i++) ra[i] = va[i] + vb[i];
            if (self) for (size_t i = 0; i < n; i++) ra[i] = va[i] + get(b)[i];
            CHECK(throws<DimensionMismatch>([&] { add(a, d); }), w + ": operands of different length are accepted");
        }
    }
    is(a, ra, w + ": target");
    if (!self) is(b, vb, w + ": right operand");
    is(o, vo, w + ": another field");
    CHECK(alt(a.exec()) == alt(e), w + ": the executor changed");
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        caseOf<double>(); caseOf<Vector>(); caseOf<int>(); caseOf<unsigned int>();
        CHECK(Kokkos::shim::badFree() == 0, "storage released twice or on another executor");
    } while (!timeUp());
    stats();
    return 0;
}
