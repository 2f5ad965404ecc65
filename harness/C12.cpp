#include "fld.hpp"
// a pool of fields next to a model: random histories of constructions, copies, moves, resizes and writes
template<class T> struct Pool
{
    std::vector<std::unique_ptr<Field<T>>> f;
    std::vector<std::vector<T>> m;
    std::vector<long> x;
    void add(Field<T>&& q, std::vector<T> v, long k) { f.push_back(std::make_unique<Field<T>>(std::move(q))); m.push_back(std::move(v)); x.push_back(k); }
    void audit()
    {
        std::set<const void*> seen;
        for (size_t i = 0; i < f.size(); i++)
        {
            is(*f[i], m[i], last() + ": field " + std::to_string(i));
            CHECK(alt(f[i]->exec()) == (size_t)x[i], last() + ": field " + std::to_string(i) + " names another executor");
            if (m[i].empty()) continue;
            CHECK(seen.insert(f[i]->data()).second, last() + ": two fields share their storage");
            bool own = false;
            for (auto& b : Kokkos::shim::blocks()) if (b.p == f[i]->data()) { own = b.space == x[i] && b.n >= m[i].size() * sizeof(T); }
            CHECK(own, last() + ": the storage of field " + std::to_string(i) + " is not an allocation of its executor of sufficient size");
        }
        CHECK(Kokkos::shim::badFree() == 0, last() + ": storage released twice or on another executor");
    }
};
template<class T> static void caseOf()
{
    begin();
    reseed();
    size_t before = Kokkos::shim::blocks().size();
    {
        Pool<T> p;
        long N = 4 + rnd(14);
        for (long s = 0; s < N; s++)
        {
            long k = rnd(3), op = p.f.empty() ? rnd(4) : rnd(16);
            size_t n = fsize();
            size_t i = p.f.empty() ? 0 : rnd((long)p.f.size()), j = p.f.empty() ? 0 : rnd((long)p.f.size());
            step(std::string(tname<T>()) + " op " + std::to_string(op) + " executor " + std::to_string(k) + " n=" + std::to_string(n) + " i=" + std::to_string(i) + " j=" + std::to_string(j));
            nontrivial++;
            switch (op)
            {
                case 0: { Field<T> q(mkExec(k), n); auto v = rvec<T>(n); CHECK(q.size() == n, "size of a new field"); for (size_t t = 0; t < n; t++) q.data()[t] = v[t]; p.add(std::move(q), v, k); break; }
                case 1: { T x = rv<T>(); p.add(Field<T>(mkExec(k), n, x), std::vector<T>(n, x), k); break; }
                case 2: { auto v = rvec<T>(n); p.add(Field<T>(mkExec(k), v), v, k); break; }
                case 3: { auto v = rvec<T>(n + 1); auto v2 = std::vector<T>(v.begin(), v.begin() + n); p.add(Field<T>(mkExec(k), v.data(), n), v2, k); break; }
                case 4: { Field<T> q(*p.f[i]); p.add(std::move(q), p.m[i], p.x[i]); break; }
                case 5: { Field<T> q(mkExec(k), *p.f[i]); p.add(std::move(q), p.m[i], k); break; }
                case 6: { p.add(p.f[i]->copyToExecutor(mkExec(k)), p.m[i], k); break; }
                case 7: { const auto& c = *p.f[i]; p.add(c.copyToHost(), p.m[i], 0); break; }
                case 8:
                {
                    if (p.x[i] != 0) break;
                    if (p.m[i].size() != p.m[j].size()) break;
                    p.f[j]->copyToHost(*p.f[i]);
                    p.m[i] = p.m[j];
                    break;
                }
                case 9: if (p.x[i] == p.x[j]) { *p.f[i] = *p.f[j]; p.m[i] = p.m[j]; } break;
                case 10:
                {
                    size_t o = p.m[i].size();
                    p.f[i]->resize(n);
                    CHECK(p.f[i]->size() == n, last() + ": size after resize");
                    p.m[i].resize(n, T());
                    for (size_t t = o; t < n; t++) { p.m[i][t] = rv<T>(); p.f[i]->data()[t] = p.m[i][t]; }
                    break;
                }
                case 11: if (!p.m[i].empty()) { size_t t = rnd((long)p.m[i].size()); T x = rv<T>(); p.f[i]->view()[t] = x; p.m[i][t] = x; } break;
                case 12:
                {
                    auto& a = *p.f[i];
                    const auto& c = a;
                    size_t m = p.m[i].size(), lo = rnd((long)m + 1), hi = lo + rnd((long)(m - lo) + 1);
                    auto v = a.view(), w = a.view({lo, hi});
                    auto cv = c.view(), cw = c.view({lo, hi});
                    CHECK(v.size() == m && v.data() == a.data() && cv.size() == m && cv.data() == a.data(), last() + ": view of a field");
                    CHECK(w.size() == hi - lo && w.data() == a.data() + lo && cw.size() == hi - lo && cw.data() == a.data() + lo, last() + ": view of a range");
                    CHECK(a.range().first == 0 && a.range().second == m && (size_t)a.ssize() == m && a.empty() == (m == 0) && c.data() == a.data(), last() + ": size queries");
                    break;
                }
                case 13:
                {
                    Field<T> q(std::move(*p.f[i]));
                    CHECK(p.f[i]->size() == 0, last() + ": a moved-from field keeps a size");
                    auto v = p.m[i];
                    p.m[i].clear();
                    p.add(std::move(q), v, p.x[i]);
                    break;
                }
                case 14: p.f.erase(p.f.begin() + (long)i); p.m.erase(p.m.begin() + (long)i); p.x.erase(p.x.begin() + (long)i); break;
                default:
                {
                    auto& a = *p.f[i];
                    auto& b = *p.f[j];
                    auto [va, vb] = spans(a, b);
                    CHECK(va.data() == a.data() && va.size() == a.size() && vb.data() == b.data() && vb.size() == b.size(), last() + ": spans");
                    auto [ca, cb] = copyToHosts(a, b);
                    is(ca, p.m[i], last() + ": first host copy");
                    is(cb, p.m[j], last() + ": second host copy");
                    CHECK(alt(ca.exec()) == 0 && alt(cb.exec()) == 0, last() + ": host copies live elsewhere");
                    for (long q = 0; q < 3; q++) for (long r = 0; r < 3; r++) CHECK((mkExec(q) == mkExec(r)) == (q == r) && (mkExec(q) != mkExec(r)) == (q != r), "executor equality");
                }
            }
            p.audit();
        }
        step("release");
    }
    CHECK(Kokkos::shim::blocks().size() == before, "storage is not released");
    CHECK(Kokkos::shim::badFree() == 0, "storage released twice or on another executor");
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do { caseOf<double>(); caseOf<Vector>(); caseOf<int>(); caseOf<unsigned int>(); } while (!timeUp());
    stats();
    return 0;
}
