#include "fld.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
template<class V> static void look(SegmentedField<V, localIdx>& s, const std::vector<localIdx>& off, const std::vector<V>& vals, size_t k)
{
    size_t n = off.size() - 1;
    CHECK(s.size() == vals.size(), last() + ": size() is " + std::to_string(s.size()) + " instead of " + std::to_string(vals.size()));
    CHECK(s.numSegments() == n, last() + ": numSegments() is " + std::to_string(s.numSegments()) + " instead of " + std::to_string(n));
    CHECK(alt(s.exec()) == k && alt(s.values().exec()) == k && alt(s.segments().exec()) == k, last() + ": wrong executor");
    is(s.segments(), off, last() + " (boundaries)");
    is(s.values(), vals, last() + " (values)");
    auto v = s.view();
    CHECK(v.values.size() == vals.size() && v.segments.size() == n + 1 && v.values.data() == s.values().data() && v.segments.data() == s.segments().data(), last() + ": view() is not the whole field");
    auto [sv, so] = s.spans();
    CHECK(sv.size() == vals.size() && so.size() == n + 1 && sv.data() == s.values().data() && so.data() == s.segments().data(), last() + ": spans() are not the whole field");
    std::vector<int> seen(vals.size(), 0);
    for (size_t i = 0; i < n; i++)
    {
        std::string w = last() + ": segment " + std::to_string(i) + " of " + std::to_string(n);
        auto b = v.bounds(i);
        auto r = v.range(i);
        CHECK(b.first == off[i] && b.second == off[i + 1], w + " bounds");
        CHECK(r.first == off[i] && r.second == off[i + 1] - off[i], w + " range");
        CHECK(v[i] == off[i], w + " operator[]");
        auto p = v.span(i);
        CHECK(p.data() == v.values.data() + off[i] && p.size() == off[i + 1] - off[i], w + " span");
        for (auto& x : p) seen[&x - v.values.data()]++;
    }
    if (n) for (int c : seen) CHECK(c == 1, last() + ": the segments do not partition the values");
}
template<class V> static void caseOf()
{
    begin();
    reseed();
    size_t k = rnd(3), n = fsize();
    auto e = mkExec((long)k);
    std::vector<localIdx> len(n), off(n + 1, 0);
    long mx = chance(1, 4) ? 1 : 1 + rnd(9);
    for (size_t i = 0; i < n; i++) { len[i] = (localIdx)rnd(mx + 1); off[i + 1] = off[i] + len[i]; }
    auto fl = mk(e, len);
    std::string w = " executor " + std::to_string(k) + ", " + std::to_string(n) + " segments, first length " + (n ? std::to_string(len[0]) : std::string("-"));
    {
        step("segmentsFromIntervals" + w);
        auto fo = mk(e, std::vector<localIdx>(n + 1, 0));
        auto tot = segmentsFromIntervals(fl, fo);
        CHECK(tot == off[n], last() + ": total is " + std::to_string(tot) + " instead of " + std::to_string(off[n]));
        is(fo, off, last());
        is(fl, len, last() + " (lengths)");
    }
    {
        step("SegmentedField(intervals)" + w);
        SegmentedField<V, localIdx> s(fl);
        auto vals = rvec<V>(off[n]);
        CHECK(s.size() == off[n], last() + ": storage is " + std::to_string(s.size()) + " instead of " + std::to_string(off[n]));
        auto v = s.view();
        for (size_t i = 0; i < vals.size(); i++) v.values[i] = vals[i];
        is(fl, len, last() + " (lengths)");
        look<V>(s, off, vals, k);
        step("a copy of it");
        SegmentedField<V, localIdx> t(s);
        look<V>(t, off, vals, k);
    }
    {
        step("SegmentedField(values, segments)" + w);
        auto vals = rvec<V>(off[n]);
        auto fv = mk(e, vals);
        auto fo = mk(e, off);
        SegmentedField<V, localIdx> s(fv, fo);
        look<V>(s, off, vals, k);
        CHECK(s.values().size() == 0 || s.values().data() != fv.data(), last() + ": shares the storage of its argument");
        CHECK(s.segments().data() != fo.data(), last() + ": shares the boundaries of its argument");
    }
    {
        size_t sz = fsize();
        step("SegmentedField(executor, " + std::to_string(sz) + ", " + std::to_string(n) + ")" + w);
        SegmentedField<V, localIdx> s(e, sz, n);
        CHECK(s.size() == sz && s.numSegments() == n && s.segments().size() == n + 1 && alt(s.exec()) == k && alt(s.segments().exec()) == k, last() + ": wrong sizes or executor");
    }
    nontrivial += n > 1;
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        for (int i = 0; i < 10; i++) { caseOf<double>(); caseOf<Vector>(); }
    } while (!timeUp());
    stats();
    return 0;
}
