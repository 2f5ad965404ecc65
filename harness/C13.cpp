#include "fld.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
template<class T> static void fieldLoop(const Executor& e)
{
    size_t n = fsize();
    auto va = rvec<T>(n), tab = rvec<T>(n + 1);
    auto a = mk(e, va);
    const T* t = tab.data();
    std::vector<int> cnt(n + 3, 0);
    int* c = cnt.data();
    step(std::string("parallelFor over a field<") + tname<T>() + "> n=" + std::to_string(n) + " executor " + std::to_string(alt(e)));
    parallelFor(a, [=](const size_t i) { c[i]++; return t[i]; });
    tab.resize(n);
    is(a, tab, last());
    for (size_t i = 0; i < n; i++) CHECK(cnt[i] == 1, last() + ": index " + std::to_string(i) + " visited " + std::to_string(cnt[i]) + " times");
    nontrivial += n > 1;
}
static void caseOf()
{
    begin();
    reseed();
    auto e = rndExec();
    size_t n = fsize();
    size_t lo = rnd((long)n + 1), hi = chance(1, 10) ? (size_t)rnd((long)lo + 1) : lo + rnd((long)(n - lo) + 1);
    auto in = rvec<double>(n);
    for (auto& x : in) x = std::round(x);
    const double* p = in.data();
    std::string w = " on executor " + std::to_string(alt(e)) + ", range [" + std::to_string(lo) + "," + std::to_string(hi) + ") of " + std::to_string(n);
    long op = rnd(9);
    bool over = chance(1, 3);
    auto f = mk(e, in);
    if (over) { lo = 0; hi = n; w += " (field)"; }
    double sum = 0, mx = std::numeric_limits<double>::lowest(), mn = std::numeric_limits<double>::max();
    for (size_t i = lo; i < hi; i++) { sum += in[i]; mx = std::max(mx, in[i]); mn = std::min(mn, in[i]); }
    double r = chance(1, 2) ? 1000 * rv<double>() : 0;
    switch (op)
    {
        case 0:
        {
            std::vector<int> cnt(n + 1, 0);
            int* c = cnt.data();
            step("parallelFor" + w);
            parallelFor(e, {lo, hi}, [=](const size_t i) { c[i]++; });
            for (size_t i = 0; i <= n; i++) CHECK(cnt[i] == (i >= lo && i < hi ? 1 : 0), last() + ": index " + std::to_string(i) + " visited " + std::to_string(cnt[i]) + " times");
            break;
        }
        case 1: fieldLoop<double>(e); break;
        case 2: fieldLoop<Vector>(e); break;
        case 3:
        {
            step("parallelReduce sum" + w + " result held " + std::to_string(r));
            auto k = [=](const size_t i, double& acc) { acc += p[i]; };
            if (over) parallelReduce(f, k, r); else parallelReduce(e, {lo, hi}, k, r);
            CHECK(r == sum, last() + ": " + std::to_string(r) + " instead of " + std::to_string(sum));
            break;
        }
        case 4:
        {
            step("parallelReduce Sum reducer" + w + " result held " + std::to_string(r));
            Kokkos::Sum<double> red(r);
            auto k = [=](const size_t i, double& acc) { acc += p[i]; };
            if (over) parallelReduce(f, k, red); else parallelReduce(e, {lo, hi}, k, red);
            CHECK(r == sum, last() + ": " + std::to_string(r) + " instead of " + std::to_string(sum));
            break;
        }
        case 5:
        {
            step("parallelReduce Max reducer" + w + " result held " + std::to_string(r));
            Kokkos::Max<double> red(r);
            auto k = [=](const size_t i, double& acc) { if (p[i] > acc) acc = p[i]; };
            if (over) parallelReduce(f, k, red); else parallelReduce(e, {lo, hi}, k, red);
            CHECK(r == mx, last() + ": " + std::to_string(r) + " instead of " + std::to_string(mx));
            break;
        }
        case 6:
        {
            step("parallelReduce Min reducer" + w + " result held " + std::to_string(r));
            Kokkos::Min<double> red(r);
            auto k = [=](const size_t i, double& acc) { if (p[i] < acc) acc = p[i]; };
            if (over) parallelReduce(f, k, red); else parallelReduce(e, {lo, hi}, k, red);
            CHECK(r == mn, last() + ": " + std::to_string(r) + " instead of " + std::to_string(mn));
            break;
        }
        case 7:
        {
            step("parallelScan" + w);
            std::vector<double> out(n, -1);
            double* o = out.data();
            bool tot = chance(1, 2);
            auto k = [=](const size_t i, double& acc, const bool final) { acc += p[i]; if (final) o[i] = acc; };
            if (tot) parallelScan(e, {lo, hi}, k, r); else parallelScan(e, {lo, hi}, k);
            double s = 0;
            for (size_t i = 0; i < n; i++)
            {
                if (i >= lo && i < hi) s += in[i];
                CHECK(out[i] == (i >= lo && i < hi ? s : -1), last() + ": wrong at " + std::to_string(i));
            }
            if (tot) CHECK(r == sum, last() + ": total " + std::to_string(r));
            break;
        }
        default:
        {
            step("parallelScan exclusive" + w);
            std::vector<double> out(n, -1);
            double* o = out.data();
            parallelScan(e, {lo, hi}, [=](const size_t i, double& acc, const bool final) { if (final) o[i] = acc; acc += p[i]; }, r);
            double s = 0;
            for (size_t i = 0; i < n; i++)
            {
                CHECK(out[i] == (i >= lo && i < hi ? s : -1), last() + ": wrong at " + std::to_string(i));
                if (i >= lo && i < hi) s += in[i];
            }
            CHECK(r == sum, last() + ": total " + std::to_string(r));
        }
    }
    nontrivial += hi > lo + 1;
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        for (int i = 0; i < 20; i++) caseOf();
    } while (!timeUp());
    stats();
    return 0;
}
