// C23: one-dimensional meshes of every size up to a bound and some larger ones, all executors of the Kokkos stand-in
#include "fv.hpp"
template<class T> void at(const Field<T>& f, size_t k, const std::vector<T>& want, const std::string& w)
{
    CHECK(alt(f.exec()) == k, w + ": wrong executor");
    isnear(f, want, {}, w);
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    size_t next = 1;
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        const size_t k = alt(e), n = next <= 40 ? next++ : 1 + rnd(chance(1, 8) ? 3000 : 100);
        if (n > 1) ++nontrivial;
        step("create1DUniformMesh with " + std::to_string(n) + " cells");
        UnstructuredMesh m = create1DUniformMesh(e, n);
        const double h = 1.0 / n;
        std::vector<double> vol(n, h), one(n + 1, 1.0);
        std::vector<Vector> cc, cf, sf;
        std::vector<label> own, nei;
        for (size_t i = 0; i < n; i++) cc.push_back(Vector((i + 0.5) * h, 0, 0));
        for (size_t i = 0; i + 1 < n; i++) cf.push_back(Vector((i + 1) * h, 0, 0)), sf.push_back(Vector(1, 0, 0)), own.push_back(i), nei.push_back(i + 1);
        cf.push_back(Vector(0, 0, 0)), sf.push_back(Vector(-1, 0, 0)), own.push_back(0);
        cf.push_back(Vector(1, 0, 0)), sf.push_back(Vector(1, 0, 0)), own.push_back(n - 1);
        CHECK(m.nCells() == n && m.nInternalFaces() == n - 1 && m.nBoundaryFaces() == 2 && m.nBoundaries() == 2 && m.nFaces() == n + 1, last() + ": wrong counts");
        CHECK(alt(m.exec()) == k, last() + ": wrong executor");
        at(m.cellVolumes(), k, vol, last() + ": cell volumes");
        at(m.cellCentres(), k, cc, last() + ": cell centres");
        at(m.faceCentres(), k, cf, last() + ": face centres");
        at(m.points(), k, cf, last() + ": points");
        at(m.faceAreas(), k, sf, last() + ": face areas");
        at(m.magFaceAreas(), k, one, last() + ": face area magnitudes");
        is(m.faceOwner(), own, last() + ": owners");
        is(m.faceNeighbour(), nei, last() + ": neighbours");
        const BoundaryMesh& b = m.boundaryMesh();
        is(b.faceCells(), std::vector<label> {0, (label)n - 1}, last() + ": boundary cells");
        std::vector<Vector> bs {Vector(-1, 0, 0), Vector(1, 0, 0)};
        at(b.cf(), k, {Vector(0, 0, 0), Vector(1, 0, 0)}, last() + ": boundary face centres");
        at(b.cn(), k, {cc[0], cc[n - 1]}, last() + ": boundary cell centres");
        at(b.sf(), k, bs, last() + ": boundary face areas");
        at(b.nf(), k, bs, last() + ": boundary normals");
        at(b.magSf(), k, {1, 1}, last() + ": boundary face area magnitudes");
        at(b.delta(), k, {Vector(-h / 2, 0, 0), Vector(h / 2, 0, 0)}, last() + ": boundary distances");
        at(b.weights(), k, {1, 1}, last() + ": boundary weights");
        CHECK(b.deltaCoeffs().size() == 2 && near(b.deltaCoeffs().data()[0], 2 / h, n) && near(b.deltaCoeffs().data()[1], 2 / h, n), last() + ": boundary coefficients");
        CHECK(b.offset() == (std::vector<localIdx> {0, 1, 2}), last() + ": patch offsets");
        CHECK(b.faceCells(0).size() == 1 && b.faceCells(1).size() == 1 && b.faceCells(0)[0] == 0 && b.faceCells(1)[0] == (label)n - 1, last() + ": patches");
    } while (!timeUp());
    stats();
}
