// C31: random meshes (also degenerate faces); the coefficients of the geometry scheme against the formulas written out by hand
#include "fv.hpp"

inline Vector sub(const Vector& a, const Vector& b) { return addv(a, mulv(-1, b)); }
std::vector<double> weights(const Mesh& m)
{
    std::vector<double> w;
    for (size_t i = 0; i < m.nF(); i++)
    {
        if (i >= m.nI) { w.push_back(1); continue; }
        double a = std::fabs(dotv(m.sf[i], sub(m.cf[i], m.cc[m.own[i]]))), b = std::fabs(dotv(m.sf[i], sub(m.cc[m.nei[i]], m.cf[i])));
        w.push_back(a + b > 1e-18 ? b / (a + b) : 0.5);
    }
    return w;
}
Vector dist(const Mesh& m, size_t i) { return sub(i < m.nI ? m.cc[m.nei[i]] : m.cf[i], m.cc[m.own[i]]); }
std::vector<double> delta(const Mesh& m)
{
    std::vector<double> r;
    for (size_t i = 0; i < m.nF(); i++) r.push_back(1 / len(dist(m, i)));
    return r;
}
std::vector<double> ortho(const Mesh& m)
{
    std::vector<double> r;
    for (size_t i = 0; i < m.nF(); i++)
    {
        Vector d = dist(m, i);
        r.push_back(1 / std::max(dotv(mulv(1 / m.mag[i], m.sf[i]), d), 0.05 * len(d)));
    }
    return r;
}
std::vector<double> absof(std::vector<double> v)
{
    for (double& x : v) x = 1 + std::fabs(x);
    return v;
}

int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nI > 0 && m.nB > 0) ++nontrivial;
        for (size_t i = 0; i < m.nI; i++)       // cell centres and face in one plane along the face
            if (chance(1, 8))
            {
                m.sf[i] = Vector(0, 0, m.sf[i][2]), m.mag[i] = m.sf[i][2];
                m.cc[m.own[i]] = Vector(m.cc[m.own[i]][0], m.cc[m.own[i]][1], m.cf[i][2]);
                m.cc[m.nei[i]] = Vector(m.cc[m.nei[i]][0] + 10, m.cc[m.nei[i]][1], m.cf[i][2]);
            }
        UnstructuredMesh um = build(e, m);
        auto w = weights(m), d = delta(m), o = ortho(m);
        step("geometry coefficients: " + m.str());
        if (chance(1, 2))
        {
            fvcc::BasicGeometryScheme s(um);
            Surf<double> a(e, um, m), b(e, um, m), c(e, um, m);
            s.updateWeights(e, a.f);
            s.updateDeltaCoeffs(e, b.f);
            s.updateNonOrthDeltaCoeffs(e, c.f);
            isnear(a.f.internalField(), w, {}, "updateWeights");
            isnear(b.f.internalField(), d, absof(d), "updateDeltaCoeffs");
            isnear(c.f.internalField(), o, absof(o), "updateNonOrthDeltaCoeffs");
        }
        else
        {
            auto g = chance(1, 2) ? fvcc::GeometryScheme::readOrCreate(um) : std::make_shared<fvcc::GeometryScheme>(um);
            isnear(g->weights().internalField(), w, {}, "the weights of a geometry scheme");
            isnear(g->deltaCoeffs().internalField(), d, absof(d), "the delta coefficients of a geometry scheme");
            isnear(g->nonOrthDeltaCoeffs().internalField(), o, absof(o), "the normal delta coefficients of a geometry scheme");
            for (size_t i = 0; i < m.nF(); i++)
                CHECK(g->weights().internalField().data()[i] >= 0 && g->weights().internalField().data()[i] <= 1, "a weight is not between zero and one");
        }
        is(um.cellCentres(), m.cc, "the cell centres");
        is(um.faceAreas(), m.sf, "the face area vectors");
    } while (!timeUp());
    stats();
}
