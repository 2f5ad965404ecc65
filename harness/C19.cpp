// C19: sparsity patterns of random meshes (several faces between two cells, isolated cells, cells with hundreds of faces)
#include "fv.hpp"

static void layout(const fvcc::SparsityPattern& sp, const Mesh& m, const std::string& w)
{
    auto R = get(sp.rowPtrs());
    auto A = get(sp.colIdxs());
    auto O = get(sp.ownerOffset());
    auto N = get(sp.neighbourOffset());
    auto D = get(sp.diagOffset());
    size_t nnz = m.nC + 2 * m.nI;
    CHECK(R.size() == m.nC + 1 && A.size() == nnz && O.size() == m.nI && N.size() == m.nI && D.size() == m.nC, w + ": sizes");
    CHECK((size_t)sp.rows() == m.nC && (size_t)sp.nnz() == nnz, w + ": rows() or nnz()");
    std::vector<size_t> len(m.nC, 1);
    for (size_t f = 0; f < m.nI; f++) len[m.own[f]]++, len[m.nei[f]]++;
    CHECK(R[0] == 0, w + ": first row start is " + std::to_string(R[0]));
    for (size_t i = 0; i < m.nC; i++)
        CHECK((size_t)R[i + 1] - (size_t)R[i] == len[i], w + ": row " + std::to_string(i) + " has " + std::to_string((long)R[i + 1] - (long)R[i]) + " entries instead of " + std::to_string(len[i]));
    std::vector<int> used(nnz, 0);
    auto entry = [&](size_t row, size_t off, size_t col, const std::string& what)
    {
        size_t p = (size_t)R[row] + off;
        CHECK(p >= (size_t)R[row] && p < (size_t)R[row + 1], w + ": " + what + " lies outside row " + std::to_string(row) + " (offset " + std::to_string(off) + ")");
        CHECK((size_t)A[p] == col, w + ": " + what + " holds column " + std::to_string(A[p]) + " instead of " + std::to_string(col));
        CHECK(used[p]++ == 0, w + ": " + what + " shares its entry");
    };
    for (size_t i = 0; i < m.nC; i++) entry(i, D[i], i, "the diagonal of cell " + std::to_string(i));
    for (size_t f = 0; f < m.nI; f++)
    {
        entry(m.own[f], O[f], m.nei[f], "the owner's entry of face " + std::to_string(f));
        entry(m.nei[f], N[f], m.own[f], "the neighbour's entry of face " + std::to_string(f));
    }
    for (size_t p = 0; p < nnz; p++) CHECK(used[p] == 1 && (size_t)A[p] < m.nC, w + ": entry " + std::to_string(p));
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    long it = 0;
    do
    {
        begin();
        reseed();
        Mesh m = rmesh();
        bool star = it++ % 400 == 7;
        if ((star || chance(1, 2)) && m.nC > 1)
        {
            // a general multigraph; in a star one cell has hundreds of faces
            size_t nI = star ? 200 + rnd(400) : rnd(5 * m.nC + 1), b = m.nI;
            if (star) m.nC = 2 + rnd(500);
            std::vector<int> own, nei;
            for (size_t f = 0; f < nI; f++)
            {
                int x = star ? 0 : rnd(m.nC), y = star ? 1 + rnd(m.nC - 1) : rnd(m.nC);
                if (x == y) y = (x + 1) % m.nC;
                if (chance(1, 3)) std::swap(x, y);
                own.push_back(x);
                nei.push_back(y);
            }
            own.insert(own.end(), m.own.begin() + b, m.own.end());
            m.own = own;
            m.nei = nei;
            m.nI = nI;
            m.vol.resize(m.nC, 1.0);
            while (m.cc.size() < m.nC) m.cc.push_back(rpos());
            m.cf.resize(m.nF(), Vector(1, 2, 3));
            m.sf.resize(m.nF(), Vector(0, 0, 1));
            m.mag.assign(m.nF(), 1.0);
            for (size_t f = 0; f < m.nF(); f++) m.mag[f] = len(m.sf[f]);
        }
        size_t k = rnd(3);
        step("executor " + std::to_string(k) + ": " + m.str());
        std::string w = last();
        if (m.nC > 2 && m.nI > 2) ++nontrivial;
        auto e = mkExec((long)k);
        UnstructuredMesh um = build(e, m);
        fvcc::SparsityPattern sp(um);
        CHECK(&sp.mesh() == &um, w + ": of another mesh");
        layout(sp, m, w);
        if (chance(1, 3)) { sp.update(); layout(sp, m, w + ", updated again"); }
        if (chance(1, 4))
        {
            auto p = fvcc::SparsityPattern::readOrCreate(um);
            layout(*p, m, w + ", readOrCreate");
            CHECK(fvcc::SparsityPattern::readOrCreate(um) == p && &p->mesh() == &um, w + ": readOrCreate twice yields two patterns");
        }
        CHECK(get(um.faceOwner()) == m.own && get(um.faceNeighbour()) == m.nei, w + ": the mesh changed");
    } while (!timeUp());
    stats();
    return 0;
}
