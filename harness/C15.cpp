// C15: random meshes, fields and coefficients; every operator against the sum over faces written out by hand
#include "fv.hpp"

template<class T>
std::vector<T> expect(const Mesh& m, const std::vector<T>& flux, const Cf& c, std::vector<double>& mag)
{
    std::vector<T> s;
    gatherFaces(m, flux, s, mag);
    for (size_t i = 0; i < m.nC; i++)
    {
        s[i] = mulv(c.at(i) / m.vol[i], s[i]);
        mag[i] *= 1 + std::fabs(c.at(i)) / m.vol[i];
    }
    return s;
}

template<class T> T total(const Mesh& m, const Field<T>& f)
{
    T s = zeroOf<T>();
    for (size_t i = 0; i < m.nC; i++) s = addv(s, mulv(m.vol[i], f.data()[i]));
    return s;
}
template<class T> void conserve(const Mesh& m, const std::vector<T>& flux, const Field<T>& res, double a, const std::string& what)
{
    T b = zeroOf<T>();
    double mag = 1;
    for (size_t i = 0; i < m.nF(); i++)
    {
        if (i >= m.nI) b = addv(b, flux[i]);
        mag += size1(flux[i]) * (1 + std::fabs(a));
    }
    CHECK(near(total(m, res), mulv(a, b), mag), what + ": the volume-weighted sum over all cells is not the sum of the boundary fluxes");
}

template<class T> void testDiv(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Surf<double> ff(e, um, m);
    Cf c(e, m.nC);
    bool up = chance(1, 2);
    auto in = [&] { return Input(TokenList({std::string(up ? "upwind" : "linear")})); };
    step(std::string("divergence of a ") + tname<T>() + " field, " + (up ? "upwind" : "linear") + ", scaled by " + (c.span ? "a field" : "a number") + ": " + m.str());
    fvcc::SurfaceInterpolation<T> interp(e, um, in());
    SurfaceField<T> face = [&] { SurfaceField<T> f(e, "f", um, fvcc::createCalculatedBCs<SurfaceBoundary<T>>(um)); interp.interpolate(ff.f, phi.f, f); return f; }();
    std::vector<T> flux;
    for (size_t i = 0; i < m.nF(); i++) flux.push_back(mulv(ff.v[i], face.internalField().data()[i]));
    std::vector<double> mag;
    auto want = expect(m, flux, c, mag);
    fvcc::GaussGreenDiv<T> div(e, um, in());
    {
        auto r = mk(e, std::vector<T>(m.nC, zeroOf<T>()));
        div.div(r, ff.f, phi.f, c.get());
        isnear(r, want, mag, "div into a field");
        if (!c.span) conserve(m, flux, r, c.a, "div");
    }
    {
        VolumeField<T> r(e, "r", um, fvcc::createCalculatedBCs<VolumeBoundary<T>>(um));
        put(r.internalField(), std::vector<T>(m.nC, zeroOf<T>()));
        div.div(r, ff.f, phi.f, c.get());
        isnear(r.internalField(), want, mag, "div into a volume field");
    }
    {
        auto r = div.div(ff.f, phi.f, c.get());
        isnear(r.internalField(), want, mag, "div returning a volume field");
    }
    is(phi.f.internalField(), phi.v, "the argument of div");
    is(ff.f.internalField(), ff.v, "the fluxes of div");
}
template<class T> void testInt(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Surf<T> fl(e, um, m);
    Cf c(e, m.nC);
    step(std::string("surface integration of ") + tname<T>() + " fluxes: " + m.str());
    std::vector<double> mag;
    auto want = expect(m, fl.v, c, mag);
    auto r = mk(e, std::vector<T>(m.nC, zeroOf<T>()));
    fvcc::surfaceIntegrate<T>(e, m.nI, um.faceNeighbour().view(), um.faceOwner().view(), um.boundaryMesh().faceCells().view(),
        const_cast<const SurfaceField<T>&>(fl.f).internalField().view(), um.cellVolumes().view(), r.view(), c.get());
    isnear(r, want, mag, "surfaceIntegrate");
    if (!c.span) conserve(m, fl.v, r, c.a, "surfaceIntegrate");
    auto start = rvec<T>(m.nC);
    auto src = mk(e, start);
    fvcc::SurfaceIntegrate<T> op(fl.f);
    op.getCoefficient() *= c.get();
    op.explicitOperation(src);
    for (size_t i = 0; i < m.nC; i++) want[i] = addv(want[i], start[i]), mag[i] += size1(start[i]);
    isnear(src, want, mag, "SurfaceIntegrate::explicitOperation");
}
template<class T> void testLap(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Surf<double> g(e, um, m, "gamma");
    Cf c(e, m.nC);
    step(std::string("Laplacian of a ") + tname<T>() + " field: " + m.str());
    fvcc::FaceNormalGradient<T> fng(e, um, TokenList({std::string("uncorrected")}));
    auto grad = fng.faceNormalGrad(phi.f);
    std::vector<T> flux;
    for (size_t i = 0; i < m.nF(); i++) flux.push_back(mulv(g.v[i] * m.mag[i], grad.internalField().data()[i]));
    std::vector<double> mag;
    auto want = expect(m, flux, c, mag);
    auto r = mk(e, std::vector<T>(m.nC, zeroOf<T>()));
    fvcc::computeLaplacianExp<T>(fng, g.f, phi.f, r, c.get());
    isnear(r, want, mag, "computeLaplacianExp");
    if (!c.span) conserve(m, flux, r, c.a, "Laplacian");
    fvcc::GaussGreenLaplacian<T> lap(e, um, TokenList({std::string("linear"), std::string("uncorrected")}));
    auto r2 = mk(e, std::vector<T>(m.nC, zeroOf<T>()));
    lap.laplacian(r2, g.f, phi.f, c.get());
    isnear(r2, want, mag, "GaussGreenLaplacian::laplacian");
}
void testGrad(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<double> phi(e, um, m);
    step("gradient: " + m.str());
    fvcc::SurfaceInterpolation<double> interp(e, um, TokenList({std::string("linear")}));
    SurfaceField<double> face(e, "f", um, fvcc::createCalculatedBCs<SurfaceBoundary<double>>(um));
    interp.interpolate(phi.f, face);
    std::vector<Vector> flux;
    for (size_t i = 0; i < m.nF(); i++) flux.push_back(mulv(face.internalField().data()[i], m.sf[i]));
    Cf one(e, m.nC);
    one.a = 1, one.span = false;
    std::vector<double> mag;
    auto want = expect(m, flux, one, mag);
    fvcc::GaussGreenGrad gg(e, um);
    VolumeField<Vector> r(e, "r", um, fvcc::createCalculatedBCs<VolumeBoundary<Vector>>(um));
    put(r.internalField(), std::vector<Vector>(m.nC, Vector(0, 0, 0)));
    gg.grad(phi.f, r);
    isnear(r.internalField(), want, mag, "GaussGreenGrad::grad");
    conserve(m, flux, r.internalField(), 1, "gradient");
}

int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nC > 1 && m.nF() > 0) ++nontrivial;
        UnstructuredMesh um = build(e, m);
        switch (rnd(7))
        {
        case 0: testDiv<double>(e, um, m); break;
        case 1: testDiv<Vector>(e, um, m); break;
        case 2: testInt<double>(e, um, m); break;
        case 3: testInt<Vector>(e, um, m); break;
        case 4: testLap<double>(e, um, m); break;
        case 5: testLap<Vector>(e, um, m); break;
        case 6: testGrad(e, um, m); break;
        }
    } while (!timeUp());
    stats();
}
