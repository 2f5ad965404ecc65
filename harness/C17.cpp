// C17: random meshes, fields and fluxes; face values and face-normal gradients against the formulas written out by hand
#include "fv.hpp"

template<class T> void testLinear(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Surf<double> fl(e, um, m);
    step(std::string("linear interpolation of a ") + tname<T>() + " field: " + m.str());
    auto gs = fvcc::GeometryScheme::readOrCreate(um);
    std::vector<double> w = rvec<double>(m.nF()), mag;
    for (size_t i = 0; i < m.nF(); i++) w[i] = i < m.nI ? rnd(17) / 16.0 : 1.0;
    put(const_cast<SurfaceField<scalar>&>(gs->weights()).internalField(), w);
    std::vector<T> want;
    for (size_t i = 0; i < m.nF(); i++)
    {
        want.push_back(i < m.nI ? addv(mulv(w[i], phi.v[m.own[i]]), mulv(1 - w[i], phi.v[m.nei[i]])) : phi.bval[i - m.nI]);
        mag.push_back(1 + (i < m.nI ? size1(phi.v[m.own[i]]) + size1(phi.v[m.nei[i]]) : 0.0));
    }
    fvcc::SurfaceInterpolation<T> s(e, um, TokenList({std::string("linear")}));
    Surf<T> out(e, um, m);
    if (chance(1, 2)) s.interpolate(phi.f, out.f); else s.interpolate(fl.f, phi.f, out.f);
    isnear(out.f.internalField(), want, mag, "linear interpolation");
    isnear(s.interpolate(phi.f).internalField(), want, mag, "linear interpolation returning a field");
    Surf<double> wt(e, um, m);
    if (chance(1, 2)) s.weight(phi.f, wt.f); else s.weight(fl.f, phi.f, wt.f);
    is(wt.f.internalField(), w, "the weights handed out by linear interpolation");
    is(gs->weights().internalField(), w, "the weights of the geometry scheme");
    is(phi.f.internalField(), phi.v, "the interpolated field");
    is(phi.f.boundaryField().value(), phi.bval, "the boundary values of the interpolated field");
}
template<class T> void testUpwind(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Surf<double> fl(e, um, m);
    for (size_t i = 0; i < m.nF(); i++)
        if (chance(1, 5)) fl.v[i] = 0;
    put(fl.f.internalField(), fl.v);
    step(std::string("upwind interpolation of a ") + tname<T>() + " field: " + m.str());
    std::vector<T> want;
    for (size_t i = 0; i < m.nF(); i++) want.push_back(i < m.nI ? phi.v[fl.v[i] >= 0 ? m.own[i] : m.nei[i]] : phi.bval[i - m.nI]);
    fvcc::SurfaceInterpolation<T> s(e, um, TokenList({std::string("upwind")}));
    Surf<T> out(e, um, m);
    s.interpolate(fl.f, phi.f, out.f);
    isnear(out.f.internalField(), want, {}, "upwind interpolation");
    if constexpr (std::is_same_v<T, double>)        // the returning form takes a flux of the field's own type
        isnear(s.interpolate(fl.f, phi.f).internalField(), want, {}, "upwind interpolation returning a field");
    is(phi.f.internalField(), phi.v, "the interpolated field");
    is(fl.f.internalField(), fl.v, "the fluxes");
}
template<class T> void testGradient(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    step(std::string("face normal gradient of a ") + tname<T>() + " field: " + m.str());
    auto gs = fvcc::GeometryScheme::readOrCreate(um);
    std::vector<double> d = rvec<double>(m.nF()), mag;
    put(const_cast<SurfaceField<scalar>&>(gs->nonOrthDeltaCoeffs()).internalField(), d);
    put(const_cast<SurfaceField<scalar>&>(gs->deltaCoeffs()).internalField(), rvec<double>(m.nF()));
    std::vector<T> want;
    for (size_t i = 0; i < m.nF(); i++)
    {
        const T a = phi.v[m.own[i]], b = i < m.nI ? phi.v[m.nei[i]] : phi.bval[i - m.nI];
        want.push_back(mulv(d[i], addv(b, mulv(-1, a))));
        mag.push_back(1 + std::fabs(d[i]) * (size1(a) + size1(b)));
    }
    fvcc::FaceNormalGradient<T> s(e, um, TokenList({std::string("uncorrected")}));
    Surf<T> out(e, um, m);
    s.faceNormalGrad(phi.f, out.f);
    isnear(out.f.internalField(), want, mag, "face normal gradient");
    isnear(s.faceNormalGrad(phi.f).internalField(), want, mag, "face normal gradient returning a field");
    is(s.deltaCoeffs().internalField(), d, "the coefficients the gradient is computed with");
    is(phi.f.internalField(), phi.v, "the field whose gradient is computed");
}

int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nI > 0 && m.nB > 0) ++nontrivial;
        UnstructuredMesh um = build(e, m);
        switch (rnd(6))
        {
        case 0: testLinear<double>(e, um, m); break;
        case 1: testLinear<Vector>(e, um, m); break;
        case 2: testUpwind<double>(e, um, m); break;
        case 3: testUpwind<Vector>(e, um, m); break;
        case 4: testGradient<double>(e, um, m); break;
        case 5: testGradient<Vector>(e, um, m); break;
        }
    } while (!timeUp());
    stats();
}
