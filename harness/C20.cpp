// C20: random sparse matrices (empty rows, no rows) and systems; entries, residuals, copies, conversions against the dense picture
#include "fv.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include <sys/wait.h>
#include <unistd.h>

template<class T> struct Rnd
{
    size_t n, ncol;
    std::vector<localIdx> off, col;
    std::vector<T> val;
    Rnd(bool square)
    {
        n = chance(1, 8) ? 0 : 1 + rnd(chance(1, 2) ? 3 : 12);
        ncol = square ? n : 1 + rnd(12);
        off.push_back(0);
        for (size_t i = 0; i < n; i++)
        {
            size_t dens = rnd(4);
            for (size_t j = 0; j < ncol; j++) if (rnd(4) < (long)dens) col.push_back((localIdx)j);
            off.push_back((localIdx)col.size());
        }
        val = rvec<T>(col.size());
    }
    std::string str() const
    {
        std::string s = std::to_string(n) + " rows, columns";
        for (size_t i = 0; i < n; i++)
        {
            s += " |";
            for (size_t p = off[i]; p < off[i + 1]; p++) s += " " + std::to_string(col[p]);
        }
        return s;
    }
};
template<class T> using M = la::CSRMatrix<T, localIdx>;
template<class T, class I> void looks(const la::CSRMatrix<T, I>& m, const Rnd<T>& r, size_t k, const std::string& w)
{
    CHECK(alt(m.exec()) == k && alt(m.values().exec()) == k && alt(m.rowPtrs().exec()) == k && alt(m.colIdxs().exec()) == k, w + ": wrong executor");
    CHECK((size_t)m.nRows() == r.n && (size_t)m.nNonZeros() == r.val.size(), w + ": " + std::to_string(m.nRows()) + " rows and " + std::to_string(m.nNonZeros()) + " entries");
    is(m.values(), r.val, w + ": values");
    is(m.colIdxs(), std::vector<I>(r.col.begin(), r.col.end()), w + ": columns");
    is(m.rowPtrs(), std::vector<I>(r.off.begin(), r.off.end()), w + ": row starts");
}
// does the call terminate the program?
template<class F> bool aborts(F f)
{
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        freopen("/dev/null", "w", stderr);
        signal(SIGABRT, SIG_DFL);
        f();
        _exit(0);
    }
    int s = 0;
    waitpid(p, &s, 0);
    return !(WIFEXITED(s) && WEXITSTATUS(s) == 0);
}
template<class V, class T> void entries(V v, const Rnd<T>& r, const T* base, const std::string& w)
{
    for (size_t i = 0; i < r.n; i++)
        for (size_t p = r.off[i]; p < r.off[i + 1]; p++)
            CHECK(&v.entry((localIdx)i, r.col[p]) == base + p, w + ": entry(" + std::to_string(i) + ", " + std::to_string(r.col[p]) + ") is another entry");
    for (size_t p = 0; p < r.val.size(); p++) CHECK(&v.entry((localIdx)p) == base + p, w + ": entry at an offset");
    if (r.n && chance(1, 4))
    {
        localIdx i = (localIdx)rnd(r.n), j = (localIdx)rnd(r.ncol + 2);
        bool stored = std::find(r.col.begin() + r.off[i], r.col.begin() + r.off[i + 1], j) != r.col.begin() + r.off[i + 1];
        if (!stored)
        {
            step(w + ": absent entry(" + std::to_string(i) + ", " + std::to_string(j) + ")");
            CHECK(aborts([&] { (void)*const_cast<volatile const char*>((const volatile char*)&v.entry(i, j)); }), last() + " is not reported");
        }
    }
}
template<class T> void csr()
{
    begin();
    reseed();
    size_t k = rnd(3), q = rnd(3);
    auto e = mkExec((long)k), e2 = mkExec((long)q);
    Rnd<T> r(false);
    if (r.n > 1 && r.val.size() > 2) ++nontrivial;
    step("matrix on executor " + std::to_string(k) + ": " + r.str());
    std::string w = last();
    auto fv = mk(e, r.val);
    auto fc = mk(e, r.col), fo = mk(e, r.off);
    M<T> m(fv, fc, fo);
    const M<T>& cm = m;
    looks(cm, r, k, w);
    entries(m.view(), r, m.values().data(), w + " (view)");
    entries(cm.view(), r, m.values().data(), w + " (const view)");
    auto v = m.view();
    CHECK(v.values.size() == r.val.size() && v.colIdxs.size() == r.col.size() && v.rowOffs.size() == r.off.size() && v.colIdxs.data() == m.colIdxs().data() && v.rowOffs.data() == m.rowPtrs().data(), w + ": view() is not the whole matrix");
    M<T> none(e);
    CHECK(none.nRows() == 0 && none.nNonZeros() == 0 && alt(none.exec()) == k, w + ": the empty matrix is not empty");
    step("a copy of it"); M<T> cp(m); looks<T, localIdx>(cp, r, k, last());
    step("its copy on executor " + std::to_string(q)); M<T> ce = cm.copyToExecutor(e2); looks<T, localIdx>(ce, r, q, last());
    step("its copy on the host"); M<T> ch = cm.copyToHost(); looks<T, localIdx>(ch, r, 0, last());
    for (auto* o : {&cp, &ce, &ch}) CHECK(r.val.empty() || o->values().data() != m.values().data(), last() + ": a copy shares its values with the source");
    step("its conversion"); auto ci = la::convert<T, localIdx, T, int>(e, cm.view()); looks<T, int>(ci, r, k, last());
    looks(cm, r, k, w + " afterwards");
    if (!r.val.empty())
    {
        size_t i = rnd(r.n);
        if (r.off[i] < r.off[i + 1])
        {
            size_t p = r.off[i] + rnd(r.off[i + 1] - r.off[i]);
            T x = rv<T>();
            step("writing entry (" + std::to_string(i) + ", " + std::to_string(r.col[p]) + ")");
            m.view().entry((localIdx)i, r.col[p]) = x;
            auto r2 = r;
            r2.val[p] = x;
            looks(cm, r2, k, last());
            looks<T, localIdx>(cp, r, k, last() + " (the copy)");
        }
    }
}
template<class T> void sys()
{
    begin();
    reseed();
    size_t k = rnd(3);
    auto e = mkExec((long)k);
    Rnd<T> r(true);
    if (r.n > 1 && r.val.size() > 2) ++nontrivial;
    auto b = rvec<T>(r.n);
    step("system on executor " + std::to_string(k) + ": " + r.str());
    std::string w = last();
    M<T> m(mk(e, r.val), mk(e, r.col), mk(e, r.off));
    la::LinearSystem<T, localIdx> s(m, mk(e, b));
    const auto& cs = s;
    auto look = [&](const la::LinearSystem<T, localIdx>& x, const Rnd<T>& rr, const std::vector<T>& bb, size_t kk, const std::string& ww) { looks(x.matrix(), rr, kk, ww); is(x.rhs(), bb, ww + ": right-hand side"); CHECK(alt(x.rhs().exec()) == kk && alt(x.exec()) == kk, ww + ": wrong executor"); };
    look(cs, r, b, k, w);
    step("a copy of it"); la::LinearSystem<T, localIdx> t(s); look(t, r, b, k, last());
    step("its copy on the host"); auto h = cs.copyToHost(); look(h, r, b, 0, last());
    CHECK(r.n == 0 || (t.rhs().data() != s.rhs().data() && h.rhs().data() != s.rhs().data()), last() + ": a copy shares its right-hand side with the source");
    auto v = s.view();
    auto cv = cs.view();
    CHECK(v.rhs.data() == s.rhs().data() && v.rhs.size() == r.n && v.matrix.values.data() == s.matrix().values().data() && cv.rhs.data() == s.rhs().data() && cv.matrix.values.size() == r.val.size(), w + ": view() is not the whole system");
    if constexpr (std::is_same_v<T, double>)
    {
        auto x = rvec<double>(r.n);
        auto fx = mk(e, x);
        step("residual of the system: " + r.str());
        auto res = la::spmv(s, fx);
        std::vector<double> want, mag;
        for (size_t i = 0; i < r.n; i++)
        {
            double a = -b[i], g = 1 + std::fabs(b[i]);
            for (size_t p = r.off[i]; p < r.off[i + 1]; p++) a += r.val[p] * x[r.col[p]], g += std::fabs(r.val[p] * x[r.col[p]]);
            want.push_back(a);
            mag.push_back(g);
        }
        isnear(res, want, mag, last());
        is(fx, x, last() + " (unknowns)");
        CHECK(alt(res.exec()) == k, last() + ": wrong executor");
    }
    look(cs, r, b, k, w + " afterwards");
    step("reset");
    s.reset();
    auto z = r;
    for (auto& x : z.val) x = zeroOf<T>();
    look(cs, z, std::vector<T>(r.n, zeroOf<T>()), k, last());
    look(t, r, b, k, last() + " (the copy)");
    if (chance(1, 3))
    {
        Mesh mm = rmesh();
        step("empty system of " + mm.str());
        UnstructuredMesh um = build(e, mm);
        fvcc::SparsityPattern sp(um);
        auto es = la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(sp);
        is(es.matrix().values(), std::vector<T>(mm.nC + 2 * mm.nI, zeroOf<T>()), last() + ": values");
        is(es.rhs(), std::vector<T>(mm.nC, zeroOf<T>()), last() + ": right-hand side");
        is(es.matrix().colIdxs(), get(sp.colIdxs()), last() + ": columns");
        is(es.matrix().rowPtrs(), get(sp.rowPtrs()), last() + ": row starts");
        CHECK(alt(es.exec()) == k, last() + ": wrong executor");
    }
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        switch (rnd(4))
        {
        case 0: csr<double>(); break;
        case 1: csr<Vector>(); break;
        case 2: sys<double>(); break;
        default: sys<Vector>();
        }
    } while (!timeUp());
    stats();
    return 0;
}
