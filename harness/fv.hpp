// helpers for the finite volume harnesses: the repository's sources in one translation unit over the Kokkos stand-in,
// random meshes, fields and coefficients
#pragma once
#include "fld.hpp"
#include "src/core/primitives/vector.cpp"
#include "src/core/demangle.cpp"
#include "src/core/dictionary.cpp"
#include "src/core/tokenList.cpp"
#include "src/core/database/database.cpp"
#include "src/core/database/collection.cpp"
#include "src/core/database/document.cpp"
#include "src/core/database/fieldCollection.cpp"
#include "src/core/database/oldTimeCollection.cpp"
#include "src/dsl/coeff.cpp"
#include "src/executor/serialExecutor.cpp"
#include "src/executor/CPUExecutor.cpp"
#include "src/executor/GPUExecutor.cpp"
#include "src/mesh/unstructured/boundaryMesh.cpp"
#include "src/mesh/unstructured/unstructuredMesh.cpp"
#include "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"
#include "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
#include "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"
#include "src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp"
#include "src/finiteVolume/cellCentred/boundary/boundary.cpp"
#include "src/finiteVolume/cellCentred/interpolation/linear.cpp"
#include "src/finiteVolume/cellCentred/interpolation/upwind.cpp"
#include "src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp"
#include "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp"
#include "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp"
#include "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp"
#include "src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp"
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;
using NeoFOAM::finiteVolume::cellCentred::VolumeField;
using NeoFOAM::finiteVolume::cellCentred::SurfaceField;
using NeoFOAM::finiteVolume::cellCentred::VolumeBoundary;
using NeoFOAM::finiteVolume::cellCentred::SurfaceBoundary;

template<class T> T zeroOf() { return T(); }
template<> inline double zeroOf<double>() { return 0; }
template<> inline Vector zeroOf<Vector>() { return Vector(0, 0, 0); }
inline Vector addv(const Vector& a, const Vector& b) { return Vector(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline double addv(double a, double b) { return a + b; }
inline Vector mulv(double s, const Vector& a) { return Vector(s * a[0], s * a[1], s * a[2]); }
inline double mulv(double s, double a) { return s * a; }
inline double dotv(const Vector& a, const Vector& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double len(const Vector& a) { return std::sqrt(dotv(a, a)); }
template<class T> double size1(const T& a) { if constexpr (std::is_same_v<T, Vector>) return std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2]); else return std::fabs(a); }

// plain description of a mesh and the mesh object made from it
struct Mesh
{
    size_t nC, nI, nB, nP;
    std::vector<int> own, nei, fc;      // owner of every face, neighbour of internal faces, cell of boundary faces
    std::vector<double> vol, mag;
    std::vector<Vector> cc, cf, sf;
    std::vector<localIdx> off;
    size_t nF() const { return nI + nB; }
    std::string str() const
    {
        std::string s = std::to_string(nC) + " cells, " + std::to_string(nI) + " internal and " + std::to_string(nB) + " boundary faces, own";
        for (int x : own) s += " " + std::to_string(x);
        s += ", nei";
        for (int x : nei) s += " " + std::to_string(x);
        s += ", patches";
        for (auto x : off) s += " " + std::to_string(x);
        return s;
    }
};
inline Vector rpos() { return Vector(1 + 8 * runit(), 1 + 8 * runit(), 1 + 8 * runit()); }
inline Mesh rmesh()
{
    Mesh m;
    m.nC = chance(1, 6) ? 1 : 2 + rnd(chance(1, 2) ? 4 : 12);
    m.nI = m.nC < 2 || chance(1, 10) ? 0 : rnd(3 * m.nC + 1);
    m.nP = rnd(5);
    m.off.push_back(0);
    for (size_t p = 0; p < m.nP; p++) m.off.push_back(m.off.back() + (chance(1, 5) ? 0 : rnd(5)));
    m.nB = m.off.back();
    // a simple graph: at most one face per pair of cells
    std::set<std::pair<int, int>> seen;
    for (size_t i = 0; i < m.nI; i++)
    {
        int a = rnd(m.nC), b = rnd(m.nC);
        if (a == b) b = (a + 1) % m.nC;
        if (!seen.insert({std::min(a, b), std::max(a, b)}).second) continue;
        m.own.push_back(a);
        m.nei.push_back(b);
    }
    m.nI = m.nei.size();
    for (size_t i = 0; i < m.nB; i++)
    {
        m.fc.push_back(rnd(m.nC));
        m.own.push_back(m.fc.back());
    }
    for (size_t i = 0; i < m.nC; i++)
    {
        m.vol.push_back(0.25 + 2 * runit());
        m.cc.push_back(rpos());
    }
    for (size_t i = 0; i < m.nF(); i++)
    {
        m.cf.push_back(rpos());
        m.sf.push_back(Vector(RV<double>::get() / 100, RV<double>::get() / 100, 0.5 + runit()));
        m.mag.push_back(len(m.sf.back()));
    }
    return m;
}
inline UnstructuredMesh build(const Executor& e, const Mesh& m)
{
    std::vector<Vector> cf(m.cf.begin() + m.nI, m.cf.end()), sf(m.sf.begin() + m.nI, m.sf.end()), cn, nf, delta;
    std::vector<double> mg(m.mag.begin() + m.nI, m.mag.end()), w(m.nB, 1.0), dc;
    for (size_t i = 0; i < m.nB; i++)
    {
        cn.push_back(m.cc[m.fc[i]]);
        nf.push_back(mulv(1 / mg[i], sf[i]));
        delta.push_back(addv(cf[i], mulv(-1, cn[i])));
        dc.push_back(1 / len(delta[i]));
    }
    BoundaryMesh b(e, mk(e, m.fc), mk(e, cf), mk(e, cn), mk(e, sf), mk(e, mg), mk(e, nf), mk(e, delta), mk(e, w), mk(e, dc), m.off);
    return UnstructuredMesh(mk(e, m.cc), mk(e, m.vol), mk(e, m.cc), mk(e, m.sf), mk(e, m.cf), mk(e, m.mag), mk(e, m.own), mk(e, m.nei),
        m.nC, m.nI, m.nB, m.nP, m.nF(), b);
}
template<class T> void put(Field<T>& f, const std::vector<T>& v)
{
    CHECK(f.size() == v.size(), "a field of a mesh has another size than the mesh");
    for (size_t i = 0; i < v.size(); i++) f.data()[i] = v[i];
}
// a volume field with calculated patches and random boundary data
template<class T> struct Vol
{
    std::vector<T> v, bval, bref, bgrad;
    std::vector<double> frac;
    VolumeField<T> f;
    Vol(const Executor& e, const UnstructuredMesh& um, const Mesh& m, const std::string& n = "phi")
        : v(rvec<T>(m.nC)), bval(rvec<T>(m.nB)), bref(rvec<T>(m.nB)), bgrad(rvec<T>(m.nB)),
          f(e, n, um, fvcc::createCalculatedBCs<VolumeBoundary<T>>(um))
    {
        for (size_t i = 0; i < m.nB; i++) frac.push_back(rnd(5) / 4.0);
        put(f.internalField(), v);
        put(f.boundaryField().value(), bval);
        put(f.boundaryField().refValue(), bref);
        put(f.boundaryField().refGrad(), bgrad);
        put(f.boundaryField().valueFraction(), frac);
    }
};
template<class T> struct Surf
{
    std::vector<T> v;
    SurfaceField<T> f;
    Surf(const Executor& e, const UnstructuredMesh& um, const Mesh& m, const std::string& n = "flux")
        : v(rvec<T>(m.nF())), f(e, n, um, fvcc::createCalculatedBCs<SurfaceBoundary<T>>(um))
    {
        put(f.internalField(), v);
    }
};
// an operator coefficient: a number, or a number times a field
struct Cf
{
    double a;
    std::vector<double> fld;
    Field<double> keep;
    bool span;
    Cf(const Executor& e, size_t n) : a(RV<double>::get() / 50), fld(rvec<double>(n)), keep(mk(e, fld)), span(chance(1, 2)) {}
    double at(size_t i) const { return span ? a * fld[i] : a; }
    dsl::Coeff get() const { return span ? dsl::Coeff(a, keep) : dsl::Coeff(a); }
};
template<class T> void isnear(const Field<T>& f, const std::vector<T>& v, const std::vector<double>& scale, const std::string& what)
{
    CHECK(f.size() == v.size(), what + ": size is " + std::to_string(f.size()) + " instead of " + std::to_string(v.size()));
    for (size_t i = 0; i < v.size(); i++)
        CHECK(near(f.data()[i], v[i], scale.empty() ? 1 : scale[i]), what + ": element " + std::to_string(i) + " of " + std::to_string(v.size()) + " is wrong");
}
// signed face contributions of every cell, with a magnitude for the comparison
template<class T> void gatherFaces(const Mesh& m, const std::vector<T>& flux, std::vector<T>& sum, std::vector<double>& mag)
{
    sum.assign(m.nC, zeroOf<T>());
    mag.assign(m.nC, 1.0);
    for (size_t i = 0; i < m.nF(); i++)
    {
        sum[m.own[i]] = addv(sum[m.own[i]], flux[i]);
        mag[m.own[i]] += size1(flux[i]);
        if (i < m.nI)
        {
            sum[m.nei[i]] = addv(sum[m.nei[i]], mulv(-1, flux[i]));
            mag[m.nei[i]] += size1(flux[i]);
        }
    }
}
