// C18: random meshes with patches of any size; every boundary condition against what it prescribes, everything else unchanged
#include "fv.hpp"

// what the conditions prescribe, applied to a plain copy of the field's data
template<class T> struct Plain
{
    std::vector<T> in, val, ref, grad;
    std::vector<double> frac;
};
enum Kind { fixedValue, fixedGradient, extrapolated, calculated, empty };
const char* names[] = {"fixedValue", "fixedGradient", "extrapolated", "calculated", "empty"};

template<class T> T rval() { return rvec<T>(1)[0]; }
template<class T> Dictionary dict(Kind k, const T& v)
{
    Dictionary d;
    d.insert("type", std::string(names[k]));
    if (k == fixedValue) d.insert("fixedValue", v);
    if (k == fixedGradient) d.insert("fixedGradient", v);
    return d;
}
// expected data after the condition k with parameter v on patch p; known: faces whose reference data the condition prescribes
template<class T> void apply(const Mesh& m, const std::vector<double>& dc, Plain<T>& f, Kind k, const T& v, size_t p, bool surf)
{
    for (size_t i = m.off[p]; i < m.off[p + 1]; i++)
    {
        if (k == fixedValue) { f.val[i] = f.ref[i] = v; if (!surf) f.frac[i] = 1; else f.in[m.nI + i] = v; }
        if (k == fixedGradient) { f.val[i] = addv(f.in[m.fc[i]], mulv(1 / dc[i], v)); f.grad[i] = v; f.frac[i] = 0; }
        if (k == extrapolated) { f.val[i] = f.ref[i] = f.in[m.fc[i]]; f.frac[i] = 1; f.grad[i] = zeroOf<T>(); }
    }
}
template<class T> Plain<T> take(const NeoFOAM::DomainField<T>& f)
{
    auto v = [](const auto& x) { return std::vector<std::decay_t<decltype(x.data()[0])>>(x.data(), x.data() + x.size()); };
    return {v(f.internalField()), v(f.boundaryField().value()), v(f.boundaryField().refValue()), v(f.boundaryField().refGrad()), v(f.boundaryField().valueFraction())};
}
template<class T> bool eqT(const T& a, const T& b, double s) { return near(a, b, s); }
template<class T> void compare(const std::string& w, const Mesh& m, const std::vector<std::pair<Kind, size_t>>& done, bool surf, const NeoFOAM::DomainField<T>& f, const Plain<T>& want)
{
    Plain<T> got = take(f);
    std::vector<int> kind(m.nB, -1);
    for (auto [k, p] : done)
        for (size_t i = m.off[p]; i < m.off[p + 1]; i++) kind[i] = k;
    CHECK(got.in.size() == want.in.size() && got.val.size() == m.nB, w + ": sizes changed");
    for (size_t i = 0; i < want.in.size(); i++) CHECK(near(got.in[i], want.in[i], 1), w + ": value " + std::to_string(i) + " of the field itself");
    for (size_t i = 0; i < m.nB; i++)
    {
        std::string at = w + ": face " + std::to_string(i) + " (" + (kind[i] < 0 ? "no condition" : names[kind[i]]) + ") ";
        CHECK(near(got.val[i], want.val[i], 1 + size1(want.val[i])), at + "value");
        CHECK(near(got.frac[i], want.frac[i], 1), at + "value fraction");
        if (kind[i] != fixedGradient) CHECK(near(got.ref[i], want.ref[i], 1), at + "reference value");
        if (kind[i] != fixedValue || surf) CHECK(near(got.grad[i], want.grad[i], 1), at + "reference gradient");
    }
}
template<class T, class B, class F> void test(const Executor& e, const UnstructuredMesh& um, const Mesh& m, bool surf)
{
    std::vector<double> dc;
    for (size_t i = 0; i < m.nB; i++) dc.push_back(um.boundaryMesh().deltaCoeffs().data()[i]);
    std::vector<B> bcs;
    std::vector<std::pair<Kind, T>> what;
    for (size_t p = 0; p < m.nP; p++)
    {
        Kind k = Kind(rnd(5));
        if (surf && (k == fixedGradient || k == extrapolated)) k = fixedValue;
        what.push_back({k, rval<T>()});
        bcs.push_back(B(um, dict<T>(k, what[p].second), p));
    }
    std::string s = std::string("boundary conditions of a ") + tname<T>() + (surf ? " face field:" : " cell field:");
    for (auto& x : what) s += std::string(" ") + names[x.first];
    step(s + ", " + m.str());
    F f(e, "phi", um, bcs);
    put(f.internalField(), rvec<T>(surf ? m.nF() : m.nC));
    put(f.boundaryField().value(), rvec<T>(m.nB));
    put(f.boundaryField().refValue(), rvec<T>(m.nB));
    put(f.boundaryField().refGrad(), rvec<T>(m.nB));
    put(f.boundaryField().valueFraction(), rvec<double>(m.nB));
    NeoFOAM::DomainField<T> d(e, f.internalField(), f.boundaryField());
    Plain<T> want = take(d);
    std::vector<std::pair<Kind, size_t>> done;
    // single conditions on the plain domain field
    for (size_t q = 0; q < m.nP; q++)
    {
        size_t p = rnd(m.nP);
        CHECK(bcs[p].patchID() == p && bcs[p].patchSize() == m.off[p + 1] - m.off[p] && bcs[p].patchStart() == int(m.off[p]) && bcs[p].patchEnd() == int(m.off[p + 1])
                  && bcs[p].range() == std::make_pair(size_t(m.off[p]), size_t(m.off[p + 1])), "the place of patch " + std::to_string(p));
        if (chance(1, 2)) bcs[p].correctBoundaryCondition(d);
        else { B copy(bcs[p]); copy.correctBoundaryCondition(d); }
        apply(m, dc, want, what[p].first, what[p].second, p, surf);
        done.push_back({what[p].first, p});
        compare("one condition", m, done, surf, d, want);
    }
    // all conditions of the field
    Plain<T> all = take(NeoFOAM::DomainField<T>(e, f.internalField(), f.boundaryField()));
    f.correctBoundaryConditions();
    done.clear();
    for (size_t p = 0; p < m.nP; p++) apply(m, dc, all, what[p].first, what[p].second, p, surf), done.push_back({what[p].first, p});
    compare("correctBoundaryConditions", m, done, surf, NeoFOAM::DomainField<T>(e, f.internalField(), f.boundaryField()), all);
    // ready-made lists
    auto cal = fvcc::createCalculatedBCs<B>(um);
    CHECK(cal.size() == m.nP, "one calculated condition per patch");
    for (size_t p = 0; p < cal.size(); p++)
    {
        CHECK(cal[p].patchID() == p, "calculated conditions in the order of the patches");
        cal[p].correctBoundaryCondition(d);
    }
    compare("calculated conditions", m, {}, surf, d, take(d));
    if constexpr (std::is_same_v<B, VolumeBoundary<T>>)
    {
        auto ext = fvcc::createExtrapolatedBCs<B>(um);
        CHECK(ext.size() == m.nP, "one extrapolated condition per patch");
        Plain<T> w = take(d);
        done.clear();
        for (size_t p = 0; p < ext.size(); p++)
        {
            ext[p].correctBoundaryCondition(d);
            apply(m, dc, w, extrapolated, zeroOf<T>(), p, surf);
            done.push_back({extrapolated, p});
        }
        compare("extrapolated conditions", m, done, surf, d, w);
    }
}

int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nP > 1 && m.nB > 2) ++nontrivial;
        UnstructuredMesh um = build(e, m);
        switch (rnd(4))
        {
        case 0: test<double, VolumeBoundary<double>, VolumeField<double>>(e, um, m, false); break;
        case 1: test<Vector, VolumeBoundary<Vector>, VolumeField<Vector>>(e, um, m, false); break;
        case 2: test<double, SurfaceBoundary<double>, SurfaceField<double>>(e, um, m, true); break;
        case 3: test<Vector, SurfaceBoundary<Vector>, SurfaceField<Vector>>(e, um, m, true); break;
        }
    } while (!timeUp());
    stats();
}
