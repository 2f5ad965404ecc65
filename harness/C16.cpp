// C16: random meshes, fluxes, boundary data, coefficients and systems that already hold something; every assembled entry against
// the coefficients written out by hand, located by searching the row for the column
#include "ops.hpp"

template<class T> T oneOf() { if constexpr (std::is_same_v<T, Vector>) return Vector(1, 1, 1); else return 1; }
template<class T> struct Sys
{
    std::shared_ptr<fvcc::SparsityPattern> sp;
    std::vector<localIdx> off, col;
    std::vector<T> v, b;
    std::vector<double> vm, bm;
    la::LinearSystem<T, localIdx> s;
    size_t nC;
    Sys(const UnstructuredMesh& um, const Mesh& m)
        : sp(fvcc::SparsityPattern::readOrCreate(um)), off(get(sp->rowPtrs())), col(get(sp->colIdxs())),
          s(la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp)), nC(m.nC)
    {
        v = rvec<T>(col.size()), b = rvec<T>(m.nC);
        vm.assign(v.size(), 1), bm.assign(b.size(), 1);
        put(s.matrix().values(), v);
        put(s.rhs(), b);
    }
    void add(int r, int c, const T& x)
    {
        int n = 0;
        for (size_t p = off[r]; p < off[r + 1]; p++)
            if ((int)col[p] == c) { n++; v[p] = addv(v[p], x); vm[p] += size1(x) + 1; }
        CHECK(n == 1, "row " + std::to_string(r) + " of the pattern holds column " + std::to_string(c) + " " + std::to_string(n) + " times");
    }
    void rhs(int r, const T& x) { b[r] = addv(b[r], x); bm[r] += size1(x) + 1; }
    void same(const std::string& w)
    {
        isnear(s.matrix().values(), v, vm, w + ": matrix entries");
        isnear(s.rhs(), b, bm, w + ": right-hand side");
        is(s.matrix().colIdxs(), col, w + ": columns");
        is(s.matrix().rowPtrs(), off, w + ": row starts");
    }
};
template<class T> T c1(double a) { return mulv(a, oneOf<T>()); }

template<class T> void testDiv(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Surf<double> fl(e, um, m);
    for (size_t i = 0; i < m.nF(); i++)
        if (chance(1, 5)) fl.v[i] = 0;
    put(fl.f.internalField(), fl.v);
    Cf c(e, m.nC);
    Sys<T> s(um, m);
    step(std::string("implicit divergence of a ") + tname<T>() + " field, scaled by " + (c.span ? "a field" : "a number") + ": " + m.str());
    for (size_t i = 0; i < m.nF(); i++)
    {
        const int o = m.own[i];
        const double f = fl.v[i];
        if (i < m.nI)
        {
            const int n = m.nei[i];
            s.add(o, o, c1<T>(c.at(o) * std::max(f, 0.0)));
            s.add(o, n, c1<T>(c.at(o) * std::min(f, 0.0)));
            s.add(n, n, c1<T>(-c.at(n) * std::min(f, 0.0)));
            s.add(n, o, c1<T>(-c.at(n) * std::max(f, 0.0)));
        }
        else
        {
            const double w = phi.frac[i - m.nI];
            s.add(o, o, c1<T>(c.at(o) * f * (1 - w)));
            s.rhs(o, mulv(-c.at(o) * f * w, phi.bref[i - m.nI]));
        }
    }
    auto in = [&] { return Input(TokenList({std::string("Gauss"), std::string(chance(1, 2) ? "upwind" : "linear")})); };
    if (chance(1, 2))
    {
        fvcc::GaussGreenDiv<T> div(e, um, TokenList({std::string("upwind")}));
        div.div(s.s, fl.f, phi.f, c.get());
    }
    else
    {
        fvcc::DivOperator<T> op(dsl::Operator::Type::Implicit, fl.f, phi.f, in());
        op.getCoefficient() = c.get();
        if (chance(1, 2)) op.implicitOperation(s.s); else op.div(s.s);
    }
    s.same(last());
    is(phi.f.internalField(), phi.v, "the transported field");
    is(fl.f.internalField(), fl.v, "the fluxes");
}
template<class T> void testLap(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Surf<double> g(e, um, m, "gamma");
    Cf c(e, m.nC);
    Sys<T> s(um, m);
    step(std::string("implicit Laplacian of a ") + tname<T>() + " field, scaled by " + (c.span ? "a field" : "a number") + ": " + m.str());
    auto gs = fvcc::GeometryScheme::readOrCreate(um);
    std::vector<double> d = rvec<double>(m.nF());
    put(const_cast<SurfaceField<scalar>&>(gs->nonOrthDeltaCoeffs()).internalField(), d);
    put(const_cast<SurfaceField<scalar>&>(gs->deltaCoeffs()).internalField(), rvec<double>(m.nF()));
    for (size_t i = 0; i < m.nF(); i++)
    {
        const int o = m.own[i];
        const double f = g.v[i] * m.mag[i];
        if (i < m.nI)
        {
            const int n = m.nei[i];
            s.add(o, o, c1<T>(-c.at(o) * f * d[i]));
            s.add(o, n, c1<T>(c.at(o) * f * d[i]));
            s.add(n, n, c1<T>(-c.at(n) * f * d[i]));
            s.add(n, o, c1<T>(c.at(n) * f * d[i]));
        }
        else
        {
            const size_t b = i - m.nI;
            const double w = phi.frac[b];
            s.add(o, o, c1<T>(-c.at(o) * f * w * d[i]));
            s.rhs(o, mulv(-c.at(o) * f * w * d[i], phi.bref[b]));
            s.rhs(o, mulv(-c.at(o) * f * (1 - w), phi.bgrad[b]));
        }
    }
    if (chance(1, 2))
    {
        fvcc::GaussGreenLaplacian<T> lap(e, um, TokenList({std::string("linear"), std::string("uncorrected")}));
        lap.laplacian(s.s, g.f, phi.f, c.get());
    }
    else
    {
        fvcc::LaplacianOperator<T> op(dsl::Operator::Type::Implicit, g.f, phi.f, Input(TokenList({std::string("Gauss"), std::string("linear"), std::string("uncorrected")})));
        op.getCoefficient() = c.get();
        op.implicitOperation(s.s);
    }
    s.same(last());
    is(phi.f.internalField(), phi.v, "the diffused field");
    is(g.f.internalField(), g.v, "the diffusivity");
}
template<class T> void testSource(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Vol<T> phi(e, um, m);
    Vol<double> k(e, um, m);
    Cf c(e, m.nC);
    Sys<T> s(um, m);
    step(std::string("implicit source of a ") + tname<T>() + " field, scaled by " + (c.span ? "a field" : "a number") + ": " + m.str());
    for (size_t i = 0; i < m.nC; i++) s.add(i, i, c1<T>(c.at(i) * k.v[i] * m.vol[i]));
    fvcc::SourceTerm<T> op(dsl::Operator::Type::Implicit, k.f, phi.f);
    op.getCoefficient() = c.get();
    op.implicitOperation(s.s);
    s.same(last());
    is(k.f.internalField(), k.v, "the source coefficient");
    is(phi.f.internalField(), phi.v, "the field");
}
template<class T> void testDdt(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto v = rvec<T>(m.nC), old = rvec<T>(m.nC);
    auto& phi = registerField<T>(fc, "phi", um, v);
    put(fvcc::oldTime(phi).internalField(), old);
    Cf c(e, m.nC);
    Sys<T> s(um, m);
    const double dt = (1 + rnd(16)) / 16.0;
    step(std::string("implicit time derivative of a ") + tname<T>() + " field, scaled by " + (c.span ? "a field" : "a number") + ": " + m.str());
    for (size_t i = 0; i < m.nC; i++)
    {
        s.add(i, i, c1<T>(c.at(i) * m.vol[i] / dt));
        s.rhs(i, mulv(c.at(i) * m.vol[i] / dt, old[i]));
    }
    fvcc::DdtOperator<T> op(dsl::Operator::Type::Implicit, phi);
    op.getCoefficient() = c.get();
    op.implicitOperation(s.s, rnd(10), dt);
    s.same(last());
    is(phi.internalField(), v, "the field");
    is(fvcc::oldTime(phi).internalField(), old, "the old field");
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nC > 1 && m.nF() > 0) ++nontrivial;
        UnstructuredMesh um = build(e, m);
        switch (rnd(8))
        {
        case 0: testDiv<double>(e, um, m); break;
        case 1: testDiv<Vector>(e, um, m); break;
        case 2: testLap<double>(e, um, m); break;
        case 3: testLap<Vector>(e, um, m); break;
        case 4: testSource<double>(e, um, m); break;
        case 5: testSource<Vector>(e, um, m); break;
        case 6: testDdt<double>(e, um, m); break;
        default: testDdt<Vector>(e, um, m);
        }
    } while (!timeUp());
    stats();
}
