"""What is handed to the front end for each group of properties: the real sources plus a driver that only
instantiates templates at opaque types declared inside namespace NeoFOAM."""

HEAD = r'''
#include <string>
#include <vector>
#include <any>
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "%(R)s/src/core/dictionary.cpp"
#include "%(R)s/src/core/tokenList.cpp"
#include "%(R)s/src/core/demangle.cpp"
'''

DICT_DRIVER = r'''
namespace NeoFOAM { namespace cxv {
struct Opaque { long a; std::string s; };
template<class T> void useDict(Dictionary& d, const Dictionary& c, const std::string& k) { (void)d.get<T>(k); (void)c.get<T>(k); }
inline void driveDict(Dictionary& d, const Dictionary& c, const std::string& k)
{
    useDict<int>(d, c, k); useDict<double>(d, c, k); useDict<std::string>(d, c, k); useDict<bool>(d, c, k);
    useDict<Opaque>(d, c, k); useDict<Dictionary>(d, c, k); useDict<TokenList>(d, c, k);
    Dictionary e(d); e = c; Dictionary f(static_cast<Dictionary&&>(e)); f = static_cast<Dictionary&&>(d);
}
template<class T> void useTok(TokenList& d, const TokenList& c, size_t k)
{
    (void)d.get<T>(k); (void)c.get<T>(k); (void)d.next<T>(); (void)c.next<T>(); (void)d.popFront<T>();
}
inline void driveTok(TokenList& d, const TokenList& c, size_t k)
{
    useTok<int>(d, c, k); useTok<double>(d, c, k); useTok<std::string>(d, c, k); useTok<Opaque>(d, c, k); useTok<Dictionary>(d, c, k); useTok<TokenList>(d, c, k);
    TokenList e(d); e = c;
}
}}
'''

DOC = r'''
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include "%(R)s/src/core/database/document.cpp"
#include "%(R)s/src/core/database/collection.cpp"
#include "%(R)s/src/core/database/database.cpp"
'''


class UnitSpec:
    def __init__(self, name, text, flags=()):
        self.name, self.text, self.flags = name, text, flags

    def build(self):
        from .ast import Unit, REPO
        return Unit(self.name, self.text.replace("%(R)s", REPO), self.flags)


CORE = UnitSpec("core", HEAD + DICT_DRIVER)

DOC_DRIVER = r'''
namespace NeoFOAM { namespace cxv {
inline void driveDoc(const Dictionary& d) { Document a; Document b(d); Document e(a); e = b; Document g(static_cast<Document&&>(e)); g = static_cast<Document&&>(a); }
struct DocT
{
    Document d; long extra;
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return "cxvDocT"; }
};
struct ColT : CollectionMixin<DocT>
{
    ColT(Database& db, std::string n) : CollectionMixin<DocT>(db, n) {}
};
// two unrelated types providing the collection interface, every method observing its own state
template<int N>
struct Any
{
    Document d1, d2, d5, d6; Database* d3; Database* d4;
    std::vector<std::string> found, found2; std::string key; size_t n; std::string nm; std::string ty; long own;
    Any(Any&& o) = default;
    Document& doc(const std::string& id) { if (id == key) return d1; return d5; }
    const Document& doc(const std::string& id) const { if (id == key) return d2; return d6; }
    std::vector<std::string> find(const std::function<bool(const Document&)>& p) const { if (p(d1)) return found; return found2; }
    size_t size() const { return n; }
    std::string type() const { return ty; }
    std::string name() const { return nm; }
    Database& db() { return *d3; }
    const Database& db() const { return *d4; }
};
inline void driveCol(Database& db, const Database& cdb, const std::string& id, const std::function<bool(const Document&)>& p, ColT&& cc, Any<1>&& a1, Any<2>&& a2, Collection& col, const Collection& ccol)
{
    ColT c(db, id); const ColT& k = c;
    (void)c.doc(id); (void)k.doc(id); (void)k.find(p); (void)k.size(); (void)c.db(); (void)k.db(); (void)k.name(); (void)k.type(); (void)k.sortedKeys();
    Collection x(static_cast<ColT&&>(cc)); Collection y(static_cast<Any<1>&&>(a1)); Collection z(static_cast<Any<2>&&>(a2));
    (void)col.as<Any<1>>(); (void)ccol.as<Any<1>>(); (void)col.as<Any<2>>(); (void)ccol.as<Any<2>>(); (void)col.as<ColT>(); (void)ccol.as<ColT>();
    (void)db.at<Any<1>>(id); (void)db.at<Any<2>>(id); (void)db.at<ColT>(id);
    Collection w(static_cast<Collection&&>(x)); w = static_cast<Collection&&>(y);
}
}}
'''
DB = UnitSpec("db", HEAD + DICT_DRIVER + DOC + DOC_DRIVER)

STENCIL = UnitSpec("stencil", r'''
#include <string>
#include <vector>
#include <any>
#include <memory>
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include "%(R)s/src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
namespace NeoFOAM { namespace cxv {
struct Opaque { long a; std::string s; };
template<class T> void use(StencilDataBase& d, const StencilDataBase& c, const std::string& k, const T& v) { d.insert<T>(k, v); (void)d.get<T>(k); (void)c.get<T>(k); }
inline void drive(StencilDataBase& d, const StencilDataBase& c, const std::string& k, Opaque o)
{
    use<int>(d, c, k, 1); use<double>(d, c, k, 1.0); use<std::string>(d, c, k, k); use<Opaque>(d, c, k, o); use<std::vector<int>>(d, c, k, {}); use<std::shared_ptr<Opaque>>(d, c, k, {});
    StencilDataBase e(d); e = c;
}
}}
''')

FACTORY = UnitSpec("factory", r'''
#include <string>
#include <vector>
#include <memory>
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
namespace NeoFOAM { namespace cxv {
inline std::string nmB, nm1, nm2, doc1, doc2, sch1, sch2;   // arbitrary names and texts
struct Thing { long a; std::string s; };
struct FBase : public RuntimeSelectionFactory<FBase, Parameters<const std::string&, long, Thing&, Thing>>
{
    FBase() {}
    virtual ~FBase() {}
    static std::string name() { return nmB; }
};
struct D1 : public FBase::Register<D1>
{
    std::string s; long n; Thing* t; Thing v;
    D1(const std::string& s_, long n_, Thing& t_, Thing v_) : s(s_), n(n_), t(&t_), v(v_) {}
    static std::string name() { return nm1; }
    static std::string doc() { return doc1; }
    static std::string schema() { return sch1; }
};
struct D2 : public FBase::Register<D2>
{
    long n; std::string s; Thing v; Thing* t;
    D2(const std::string& s_, long n_, Thing& t_, Thing v_) : n(n_), s(s_), v(v_), t(&t_) {}
    static std::string name() { return nm2; }
    static std::string doc() { return doc2; }
    static std::string schema() { return sch2; }
};
struct GBase : public RuntimeSelectionFactory<GBase, Parameters<>>
{
    GBase() {}
    virtual ~GBase() {}
    static std::string name() { return nmB; }
};
struct G1 : public GBase::Register<G1>
{
    long n;
    G1() : n(4711) {}
    static std::string name() { return nm1; }
    static std::string doc() { return doc1; }
    static std::string schema() { return sch1; }
};
inline void driveFactory(const std::string& k, Thing& t, long n, std::ostream& os, BaseClassData d)
{
    (void)FBase::create(k, k, n, t, t); (void)FBase::doc(k); (void)FBase::schema(k); (void)FBase::entries(); (void)FBase::size(); FBase::print(os);
    (void)FBase::Register<D1>::addSubType(); (void)FBase::Register<D2>::addSubType();
    (void)GBase::create(k); (void)GBase::doc(k); (void)GBase::schema(k); (void)GBase::entries(); (void)GBase::size();
    (void)GBase::Register<G1>::addSubType(); (void)RegisterDocumentation<FBase>::init();
    (void)BaseClassDocumentation::doc(k, k); (void)BaseClassDocumentation::schema(k, k); (void)BaseClassDocumentation::entries(k);
    BaseClassDocumentation::registerClass(k, d);
    D1 x(k, n, t, t); D2 y(k, n, t, t); G1 z;
}
}}
''')

INPUT = UnitSpec("input", r'''
#include <string>
#include <vector>
#include <any>
#include <variant>
#include <stdexcept>
#include "NeoFOAM/core/input.hpp"
#include "%(R)s/src/core/dictionary.cpp"
#include "%(R)s/src/core/tokenList.cpp"
namespace NeoFOAM { namespace cxv {
// reader whose results are arbitrary but distinct per alternative and which keeps what it was given
inline long cxvReads;
inline int cxvThrows;
inline void toss()
{
    if (cxvThrows == 1) throw std::runtime_error("reader");
    if (cxvThrows == 2) throw std::bad_any_cast();
    if (cxvThrows == 3) throw std::out_of_range("reader");
    if (cxvThrows == 4) throw std::bad_variant_access();
    if (cxvThrows == 5) throw 5;
}
struct Cls
{
    Dictionary d; TokenList t; int from;
    static Cls read(const Dictionary& i) { cxvReads = cxvReads + 1; toss(); return Cls{i, TokenList(), 1}; }
    static Cls read(const TokenList& i) { cxvReads = cxvReads + 1; toss(); return Cls{Dictionary(), i, 2}; }
};
inline void driveInput(const Input& i, Input& m) { (void)NeoFOAM::read<Cls>(i); (void)NeoFOAM::read<Cls>(m); (void)NeoFOAM::read<Cls>(static_cast<Input&&>(m)); Dictionary d; TokenList t; (void)NeoFOAM::read<Cls>(d); (void)NeoFOAM::read<Cls>(t); }
}}
''')

FIELD_INC = r'''
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>
#include "NeoFOAM/fields/field.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "%(R)s/src/core/primitives/vector.cpp"
#include "%(R)s/src/executor/serialExecutor.cpp"
#include "%(R)s/src/executor/CPUExecutor.cpp"
#include "%(R)s/src/executor/GPUExecutor.cpp"
'''

FIELD = UnitSpec("field", FIELD_INC + r'''
namespace NeoFOAM { namespace cxv {
struct F1 { scalar operator()(const size_t i) const { return table[i]; } const scalar* table; };
template<class T> struct Inner { const T* table; T operator()(const size_t i) const { return table[i]; } };
template<class T> void useField(Field<T>& a, const Field<T>& b, const T& v, const Executor& e, View<const T> vw, std::pair<size_t, size_t> r, Inner<T> in)
{
    fill(a, v); fill(a, v, r); setField(a, vw); setField(a, vw, r); map(a, in); map(a, in, r);
    (void)equal(a, v); (void)equal(b, b); a = v; a = b; a.apply(in);
    Field<T> c(b); Field<T> d(e, b); Field<T> f(e, size_t(3)); Field<T> g(e, size_t(3), v); Field<T> h(e, b.data(), size_t(3)); Field<T> h2(e, b.data(), size_t(3), e); Field<T> k(e, std::vector<T>());
    Field<T> m(static_cast<Field<T>&&>(a));
    (void)b.copyToExecutor(e); (void)b.copyToHost(); c.copyToHost(d); a.resize(size_t(5)); (void)a.view(); (void)b.view(); (void)a.view(r); (void)b.view(r); (void)b.range();
    (void)a.data(); (void)b.data(); (void)b.exec(); (void)b.size(); (void)b.ssize(); (void)b.empty(); (void)copyToHosts(a, b); (void)spans(a, b);
}
template<class T> void useAlg(Field<T>& a, const Field<T>& b)
{
    add(a, b); sub(a, b); a += b; a -= b; (void)(a + b); (void)(a - b);
}
inline void driveField(Field<scalar>& s, const Field<scalar>& cs, Field<Vector>& v, const Field<Vector>& cv, Field<localIdx>& l, const Field<localIdx>& cl, Field<label>& q, const Field<label>& cq,
    const Executor& e, View<const scalar> vs, View<const Vector> vv, View<const localIdx> vl, View<const label> vq, std::pair<size_t, size_t> r,
    Inner<scalar> is, Inner<Vector> iv, Inner<localIdx> il, Inner<label> iq, scalar x, const Vector& y)
{
    useField<scalar>(s, cs, x, e, vs, r, is); useField<Vector>(v, cv, y, e, vv, r, iv); useField<localIdx>(l, cl, 1u, e, vl, r, il); useField<label>(q, cq, 1, e, vq, r, iq);
    useAlg<scalar>(s, cs); useAlg<Vector>(v, cv); useAlg<localIdx>(l, cl); useAlg<label>(q, cq);
    mul(s, cs); mul(l, cl); mul(q, cq);
    scalarMul(s, x); scalarMul(v, x); s *= x; v *= x; s *= cs; (void)(s * cs); (void)(s * x); (void)(v * x);
    (void)(e == e); (void)(e != e);
}
}}
''')


PAR_INC = FIELD_INC + '#include "NeoFOAM/core/parallelAlgorithms.hpp"\n#include "NeoFOAM/fields/segmentedField.hpp"\n'
PAR = UnitSpec("par", PAR_INC + r"""
namespace NeoFOAM { namespace cxv {
struct Count { int* cnt; void operator()(const size_t i) const { cnt[i] += 1; } };
struct Mark { int* cnt; scalar* out; const scalar* in; void operator()(const size_t i) const { cnt[i] += 1; out[i] = in[i]; } };
template<class T> struct Inner { const T* table; T operator()(const size_t i) const { return table[i]; } };
struct Acc { const scalar* in; void operator()(const size_t i, scalar& acc) const { acc += in[i]; } };
struct AccI { const int* in; void operator()(const size_t i, int& acc) const { acc += in[i]; } };
struct Top { const scalar* in; void operator()(const size_t i, scalar& acc) const { if (in[i] > acc) acc = in[i]; } };
struct Low { const scalar* in; void operator()(const size_t i, scalar& acc) const { if (in[i] < acc) acc = in[i]; } };
struct Pre { const scalar* in; scalar* out; void operator()(const size_t i, scalar& acc, const bool final) const { acc += in[i]; if (final) out[i] = acc; } };
struct PreX { const scalar* in; scalar* out; void operator()(const size_t i, scalar& acc, const bool final) const { if (final) out[i] = acc; acc += in[i]; } };
template<class E> void usePar(const E& e, std::pair<size_t, size_t> r, Field<scalar>& f, Field<Vector>& v, const Field<scalar>& c, scalar& x, int& q, Mark m, Inner<scalar> in, Inner<Vector> iv, Acc a, AccI ai, Top t, Low l, Pre p, PreX px, Kokkos::Sum<scalar>& s, Kokkos::Max<scalar>& mx, Kokkos::Min<scalar>& mn)
{
    parallelFor(e, r, m); parallelFor(e, f, in); parallelFor(e, v, iv);
    parallelReduce(e, r, a, x); parallelReduce(e, r, ai, q); parallelReduce(e, r, a, s); parallelReduce(e, r, t, mx); parallelReduce(e, r, l, mn);
    parallelReduce(e, f, a, x); parallelReduce(e, f, a, s); parallelReduce(e, f, t, mx); parallelReduce(e, f, l, mn);
    parallelScan(e, r, p); parallelScan(e, r, px, x); parallelScan(e, r, p, x);
}
inline void drivePar(const Executor& e, std::pair<size_t, size_t> r, Field<scalar>& f, Field<Vector>& v, const Field<scalar>& c, scalar& x, int& q, Mark m, Inner<scalar> in, Inner<Vector> iv, Acc a, AccI ai, Top t, Low l, Pre p, PreX px, Kokkos::Sum<scalar>& s, Kokkos::Max<scalar>& mx, Kokkos::Min<scalar>& mn,
    const SerialExecutor& e0, const CPUExecutor& e1, const GPUExecutor& e2)
{
    parallelFor(e, r, m); parallelFor(f, in); parallelFor(v, iv);
    parallelReduce(e, r, a, x); parallelReduce(e, r, ai, q); parallelReduce(e, r, a, s); parallelReduce(e, r, t, mx); parallelReduce(e, r, l, mn);
    parallelReduce(f, a, x); parallelReduce(f, a, s); parallelReduce(f, t, mx); parallelReduce(f, l, mn);
    parallelScan(e, r, p); parallelScan(e, r, px, x); parallelScan(e, r, p, x);
}
inline void driveSeg(const Field<localIdx>& l, Field<localIdx>& m, const Field<scalar>& s, const Executor& e, size_t n)
{
    (void)segmentsFromIntervals(l, m);
    SegmentedField<scalar, localIdx> a(l); SegmentedField<scalar, localIdx> b(s, l); SegmentedField<scalar, localIdx> c(e, n, n);
    SegmentedField<localIdx, localIdx> d(l);
    (void)a.exec(); (void)a.size(); (void)a.numSegments(); (void)a.view(); (void)a.spans(); (void)a.values(); (void)a.segments();
    auto v = a.view(); (void)v.bounds(n); (void)v.range(n); (void)v.span(n); (void)v[n];
}
}}
""")

VEC = UnitSpec("vec", r'''
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/core/primitives/scalar.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
#include "%(R)s/src/core/primitives/vector.cpp"
namespace NeoFOAM { namespace cxv {
inline void driveVec(scalar x) { (void)one<scalar>(); (void)zero<scalar>(); (void)one<Vector>(); (void)zero<Vector>(); (void)one<localIdx>(); (void)zero<localIdx>(); (void)mag(x); (void)mag(Vector(x)); Vector v; Vector w(v); w = v; Vector u(x, x, x); }
}}
''')

FV_INC = r'''
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>
#include "%(R)s/src/core/primitives/vector.cpp"
#include "%(R)s/src/executor/serialExecutor.cpp"
#include "%(R)s/src/executor/CPUExecutor.cpp"
#include "%(R)s/src/executor/GPUExecutor.cpp"
#include "%(R)s/src/dsl/coeff.cpp"
#include "%(R)s/src/mesh/unstructured/unstructuredMesh.cpp"
#include "%(R)s/src/mesh/unstructured/boundaryMesh.cpp"
'''

FV_DRIVER = r'''
namespace NeoFOAM { namespace cxv {
namespace fvcc = finiteVolume::cellCentred;
template<class T> void useBF(BoundaryFields<T>& b, const BoundaryFields<T>& cb)
{
    (void)b.value(); (void)cb.value(); (void)b.refValue(); (void)cb.refValue(); (void)b.valueFraction(); (void)cb.valueFraction(); (void)b.refGrad(); (void)cb.refGrad();
    (void)cb.boundaryTypes(); (void)cb.offset(); (void)cb.nBoundaries(); (void)cb.nBoundaryFaces(); (void)b.exec(); (void)cb.range(localIdx(0));
}
template<class F> void useGeo(F& f, const F& cf)
{
    (void)f.internalField(); (void)cf.internalField(); (void)f.boundaryField(); (void)cf.boundaryField(); (void)cf.exec(); (void)cf.mesh(); (void)cf.size(); f.correctBoundaryConditions();
}
inline void driveFv(BoundaryFields<scalar>& a, BoundaryFields<Vector>& b, fvcc::VolumeField<scalar>& vs, fvcc::VolumeField<Vector>& vv, fvcc::SurfaceField<scalar>& ss, fvcc::SurfaceField<Vector>& sv)
{
    useBF<scalar>(a, a); useBF<Vector>(b, b); useGeo(vs, vs); useGeo(vv, vv); useGeo(ss, ss); useGeo(sv, sv);
}
}}
'''

FV_OPS = UnitSpec("fvops", FV_INC + r'''
#include "%(R)s/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/surfaceIntegrate.cpp"
''' + FV_DRIVER)

FV_SCHEMES = UnitSpec("fvschemes", FV_INC + r'''
#include "%(R)s/src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/stencil/basicGeometryScheme.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/interpolation/linear.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/interpolation/upwind.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp"
''' + FV_DRIVER + r'''
namespace NeoFOAM { namespace cxv {
template<class T> void useSchemes(fvcc::VolumeField<T>& v, fvcc::SurfaceField<T>& s, fvcc::SurfaceField<scalar>& fl, const fvcc::SurfaceInterpolation<T>& i, const fvcc::FaceNormalGradient<T>& g)
{
    i.interpolate(v, s); i.interpolate(fl, v, s); (void)i.interpolate(v); i.weight(v, fl); i.weight(fl, v, fl); (void)i.weight(v); (void)i.weight(fl, v);
    g.faceNormalGrad(v, s); (void)g.faceNormalGrad(v); (void)g.deltaCoeffs();
    fvcc::SurfaceInterpolation<T> ic(i); fvcc::FaceNormalGradient<T> gc(g);
}
inline void driveSchemes(fvcc::VolumeField<scalar>& a, fvcc::VolumeField<Vector>& b, fvcc::SurfaceField<scalar>& c, fvcc::SurfaceField<Vector>& d, const fvcc::SurfaceInterpolation<scalar>& i, const fvcc::SurfaceInterpolation<Vector>& j, const fvcc::FaceNormalGradient<scalar>& g, const fvcc::FaceNormalGradient<Vector>& h)
{
    useSchemes<scalar>(a, c, c, i, g); useSchemes<Vector>(b, d, c, j, h);
}
}}
''')

FV_BC = UnitSpec("fvbc", FV_INC + r"""
#include "%(R)s/src/finiteVolume/cellCentred/boundary/boundary.cpp"
#include "%(R)s/src/core/dictionary.cpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
""" + FV_DRIVER + r"""
namespace NeoFOAM { namespace cxv {
template<class B> void useB(const B& c, const UnstructuredMesh& m, const Dictionary& d, size_t p)
{
    B b(m, d, p); B a(c); (void)b.patchStart(); (void)b.patchEnd(); (void)b.patchSize(); (void)b.patchID(); (void)b.range();
}
template<class T> void useBC(DomainField<T>& f, const UnstructuredMesh& m, const Dictionary& d, size_t p, const fvcc::VolumeBoundary<T>& v, const fvcc::SurfaceBoundary<T>& s)
{
    using namespace fvcc;
    (void)f.internalField(); (void)f.boundaryField(); (void)f.exec();
    { volumeBoundary::FixedValue<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { volumeBoundary::FixedGradient<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { volumeBoundary::Extrapolated<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { volumeBoundary::Calculated<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { volumeBoundary::Empty<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { surfaceBoundary::FixedValue<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { surfaceBoundary::Calculated<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    { surfaceBoundary::Empty<T> b(m, d, p); b.correctBoundaryCondition(f); (void)b.clone(); }
    useB(v, m, d, p); useB(s, m, d, p);
    (void)createCalculatedBCs<VolumeBoundary<T>>(m); (void)createExtrapolatedBCs<VolumeBoundary<T>>(m); (void)createCalculatedBCs<SurfaceBoundary<T>>(m);
}
inline void driveBC(DomainField<scalar>& f, DomainField<Vector>& g, const UnstructuredMesh& m, const Dictionary& d, size_t p, const fvcc::VolumeBoundary<scalar>& v, const fvcc::SurfaceBoundary<scalar>& s, const fvcc::VolumeBoundary<Vector>& vv, const fvcc::SurfaceBoundary<Vector>& ss)
{
    useBC<scalar>(f, m, d, p, v, s); useBC<Vector>(g, m, d, p, vv, ss);
    fvcc::BoundaryPatchMixin b(m, p); (void)b.patchStart(); (void)b.patchEnd(); (void)b.patchSize(); (void)b.patchID(); (void)b.range();
    fvcc::BoundaryPatchMixin c(label(0), label(0), p);
}
}}
""")

LINALG = UnitSpec("linalg", FV_INC + r'''
#include "%(R)s/src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
namespace NeoFOAM { namespace cxv {
namespace fvcc = finiteVolume::cellCentred;
template<class T> void useCsr(la::CSRMatrix<T, localIdx>& m, const la::CSRMatrix<T, localIdx>& k, const Field<T>& v, Field<T>& w, const Field<localIdx>& c, const Executor& e, localIdx i)
{
    la::CSRMatrix<T, localIdx> a(v, c, c); la::CSRMatrix<T, localIdx> b(e); la::CSRMatrix<T, localIdx> d(k);
    (void)k.exec(); (void)k.nRows(); (void)k.nNonZeros(); (void)m.values(); (void)k.values(); (void)m.colIdxs(); (void)k.colIdxs(); (void)m.rowPtrs(); (void)k.rowPtrs();
    (void)k.copyToExecutor(e); (void)k.copyToHost();
    auto x = m.view(); auto y = k.view(); (void)x.entry(i, i); (void)x.entry(i); (void)y.entry(i, i); (void)y.entry(i);
    auto ci = la::convert<T, localIdx, T, int>(e, y); (void)ci.values(); (void)ci.colIdxs(); (void)ci.rowPtrs();
    (void)la::convert<T, localIdx, T, localIdx>(e, y);
    la::LinearSystem<T, localIdx> s(m, v); la::LinearSystem<T, localIdx> t(s); la::LinearSystem<T, localIdx> u(e); const auto& cs = s;
    (void)s.matrix(); (void)s.rhs(); (void)cs.matrix(); (void)cs.rhs(); (void)cs.copyToHost(); s.reset(); (void)s.view(); (void)cs.view(); (void)cs.exec();
}
inline void driveLin(la::CSRMatrix<scalar, localIdx>& m, la::CSRMatrix<Vector, localIdx>& mv, Field<scalar>& v, Field<Vector>& vv, const Field<localIdx>& c, const Executor& e, localIdx i, const fvcc::SparsityPattern& sp)
{
    useCsr<scalar>(m, m, v, v, c, e, i); useCsr<Vector>(mv, mv, vv, vv, c, e, i);
    la::LinearSystem<scalar, localIdx> s(m, v); (void)la::spmv(s, v);
    (void)la::createEmptyLinearSystem<scalar, localIdx, fvcc::SparsityPattern>(sp); (void)la::createEmptyLinearSystem<Vector, localIdx, fvcc::SparsityPattern>(sp);
    (void)sp.ownerOffset(); (void)sp.neighbourOffset(); (void)sp.diagOffset(); (void)sp.mesh(); (void)sp.colIdxs(); (void)sp.rowPtrs(); (void)sp.rows(); (void)sp.nnz();
}
}}
''')

FV_IMPL = UnitSpec("fvimpl", FV_INC + r'''
#include "%(R)s/src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/sourceTerm.cpp"
#include "%(R)s/src/finiteVolume/cellCentred/operators/ddtOperator.cpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"
''' + FV_DRIVER + r'''
namespace NeoFOAM { namespace cxv {
template<class T> void useSys(la::LinearSystem<T, localIdx>& s, const la::LinearSystem<T, localIdx>& cs, const la::CSRMatrix<T, localIdx>& k, la::CSRMatrix<T, localIdx>& m)
{
    (void)s.matrix(); (void)s.rhs(); (void)cs.matrix(); (void)cs.rhs(); (void)cs.exec(); (void)s.view(); (void)m.view(); (void)k.exec(); (void)k.nRows();
    (void)m.values(); (void)k.values(); (void)m.colIdxs(); (void)k.colIdxs(); (void)m.rowPtrs(); (void)k.rowPtrs();
}
template<class T> void useImpl(la::LinearSystem<T, localIdx>& s, fvcc::VolumeField<T>& v, fvcc::VolumeField<scalar>& c, const fvcc::SurfaceField<scalar>& fl, Dictionary d, const Input& in)
{
    fvcc::SourceTerm<T> a(dsl::Operator::Type::Implicit, c, v); a.implicitOperation(s); Field<T> src(v.exec(), 0); a.explicitOperation(src);
    fvcc::DdtOperator<T> b(dsl::Operator::Type::Implicit, v); b.implicitOperation(s, 0, 1); b.explicitOperation(src, 0, 1);
    fvcc::DivOperator<T> dv(dsl::Operator::Type::Implicit, fl, v); dv.implicitOperation(s); dv.div(s); if constexpr (std::is_same_v<T, scalar>) dv.explicitOperation(src);
    (void)dv.getCoefficient(); (void)a.getCoefficient(); (void)b.getCoefficient();
}
inline void driveImpl(la::LinearSystem<scalar, localIdx>& s, la::CSRMatrix<scalar, localIdx>& m, la::LinearSystem<Vector, localIdx>& s2, la::CSRMatrix<Vector, localIdx>& m2, fvcc::VolumeField<scalar>& v, fvcc::VolumeField<Vector>& w, const fvcc::SurfaceField<scalar>& fl, Dictionary d, const Input& in, const fvcc::SparsityPattern& sp)
{
    useSys<scalar>(s, s, m, m); useSys<Vector>(s2, s2, m2, m2); useImpl<scalar>(s, v, v, fl, d, in); useImpl<Vector>(s2, w, v, fl, d, in);
    fvcc::LaplacianOperator<scalar> l(dsl::Operator::Type::Implicit, fl, v); l.implicitOperation(s); Field<scalar> src(v.exec(), 0); l.explicitOperation(src);
    (void)sp.ownerOffset(); (void)sp.neighbourOffset(); (void)sp.diagOffset(); (void)sp.mesh(); (void)sp.colIdxs(); (void)sp.rowPtrs(); (void)sp.rows(); (void)sp.nnz();
}
}}
''')

MESH1D = UnitSpec("mesh1d", FV_INC + r"""
namespace NeoFOAM { namespace cxv {
inline void drive1d(const UnstructuredMesh& m, const BoundaryMesh& b)
{
    (void)m.points(); (void)m.cellVolumes(); (void)m.cellCentres(); (void)m.faceAreas(); (void)m.faceCentres(); (void)m.magFaceAreas(); (void)m.faceOwner(); (void)m.faceNeighbour();
    (void)create1DUniformMesh(m.exec(), m.nCells());
}
}}
""")

MPI = UnitSpec("mpi", r"""
#define NF_DEBUG
#define NF_WITH_MPI_SUPPORT
#include <string>
#include <vector>
#include <span>
#include <complex>
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
#include "%(R)s/src/core/mpi/halfDuplexCommBuffer.cpp"
namespace NeoFOAM { namespace cxv {
template<class T> void useComm(mpi::HalfDuplexCommBuffer& b, const mpi::HalfDuplexCommBuffer& k, std::vector<size_t> n, std::string s, size_t r)
{
    b.setCommRankSize<T>(n); b.initComm<T>(s); (void)b.get<T>(r); (void)k.get<T>(r);
}
inline void driveComm(mpi::HalfDuplexCommBuffer& b, const mpi::HalfDuplexCommBuffer& k, std::vector<size_t> n, std::string s, size_t r, mpi::MPIEnvironment e)
{
    useComm<char>(b, k, n, s, r); useComm<int>(b, k, n, s, r); useComm<double>(b, k, n, s, r); useComm<Vector>(b, k, n, s, r);
    mpi::HalfDuplexCommBuffer c; mpi::HalfDuplexCommBuffer d(e, n); (void)k.isCommInit(); (void)k.getCommName(); b.setMPIEnvironment(e);
    (void)b.isComplete(); b.send(); b.receive(); b.waitComplete(); b.finaliseComm(); (void)e.sizeRank(); (void)e.rank(); (void)e.comm();
    mpi::MPIEnvironment f; mpi::MPIEnvironment g(e.comm());
    mpi::FullDuplexCommBuffer h(e, n, n); const auto& q = h; h.initComm<double>(s); (void)h.getSend<double>(r); (void)h.getReceive<double>(r); (void)q.getSend<double>(r); (void)q.getReceive<double>(r);
    h.startComm(); (void)h.isComplete(); h.waitComplete(); h.finaliseComm(); (void)q.isCommInit();
}
}}
""")

DSL = UnitSpec("dsl", FV_INC + r"""
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "%(R)s/src/dsl/spatialOperator.cpp"
#include "%(R)s/src/dsl/temporalOperator.cpp"
#include "NeoFOAM/dsl/expression.hpp"
namespace NeoFOAM { namespace cxv {
namespace fvcc = finiteVolume::cellCentred;
// one opaque kind of term: what it contributes is known only through assumed contracts of these two functions
template<class T> struct SpTerm : dsl::OperatorMixin<fvcc::VolumeField<T>>
{
    using FieldValueType = T;
    long id;
    void explicitOperation(Field<T>& s) const;
    void implicitOperation(la::LinearSystem<T, localIdx>& s) const;
    std::string getName() const { return "term"; }
    SpTerm(const SpTerm&) = default;
    SpTerm(SpTerm&&) = default;
};
template<class T> struct TmTerm : dsl::OperatorMixin<fvcc::VolumeField<T>>
{
    using FieldValueType = T;
    long id;
    void explicitOperation(Field<T>& s, scalar t, scalar dt) const;
    void implicitOperation(la::LinearSystem<T, localIdx>& s, scalar t, scalar dt) const;
    std::string getName() const { return "term"; }
    TmTerm(const TmTerm&) = default;
    TmTerm(TmTerm&&) = default;
};
inline void driveCoeff(dsl::Coeff& c, const dsl::Coeff& k, const Field<scalar>& f, Field<scalar>& g)
{
    dsl::Coeff a; dsl::Coeff b(1.0); dsl::Coeff d(2.0, f); dsl::Coeff e(f); (void)k[0]; (void)c.hasSpan(); (void)c.view(); c *= 2.0; c *= k; (void)(k * k); dsl::detail::toField(c, g); c = k; dsl::Coeff h(k);
}
template<class T> void driveOp(dsl::SpatialOperator<T>& o, const dsl::SpatialOperator<T>& co, dsl::TemporalOperator<T>& m, const dsl::TemporalOperator<T>& cm, const SpTerm<T>& s, const TmTerm<T>& t, const Field<scalar>& f, const dsl::Coeff& c, Field<T>& src, la::LinearSystem<T, localIdx>& ls, const Input& in)
{
    dsl::SpatialOperator<T> a(s); dsl::SpatialOperator<T> b(co); o = co; (void)o.getCoefficient(); (void)co.getCoefficient(); (void)co.getType(); (void)co.exec(); co.explicitOperation(src); o.implicitOperation(ls);
    dsl::TemporalOperator<T> d(t); dsl::TemporalOperator<T> e(cm); (void)m.getCoefficient(); (void)cm.getCoefficient(); (void)cm.getType(); (void)cm.exec(); cm.explicitOperation(src, 0, 1); m.implicitOperation(ls, 0, 1);
    (void)(2.0 * co); (void)(f * co); (void)(c * co); (void)(2.0 * cm); (void)(f * cm); (void)(c * cm); o.build(in); m.build(in);
}
template<class T> void driveEx(dsl::Expression<T>& e, const dsl::Expression<T>& x, const dsl::SpatialOperator<T>& o, const dsl::TemporalOperator<T>& m, Field<T>& src, la::LinearSystem<T, localIdx>& ls, const Executor& ex, const Dictionary& in)
{
    dsl::Expression<T> a(ex); dsl::Expression<T> b(x); e.addOperator(o); e.addOperator(m); e.addExpression(x); (void)x.size(); (void)x.explicitOperation(size_t(1)); (void)x.explicitOperation(src); (void)x.explicitOperation(src, 0, 1);
    e.implicitOperation(ls); e.implicitOperation(ls, 0, 1); (void)x.temporalOperators(); (void)x.spatialOperators(); (void)e.temporalOperators(); (void)e.spatialOperators(); (void)x.exec();
    (void)(x + x); (void)(x + o); (void)(o + o); (void)(2.0 * x); (void)(x - x); (void)(x - o); (void)(o - o); (void)(m + o); (void)(m - o); (void)(o + m); (void)(m + m); (void)(o - m); (void)(m - m); e.build(in);
}
inline void driveDsl(dsl::SpatialOperator<scalar>& o, dsl::SpatialOperator<Vector>& ov, dsl::TemporalOperator<scalar>& m, dsl::TemporalOperator<Vector>& mv, const SpTerm<scalar>& s, const SpTerm<Vector>& sv, const TmTerm<scalar>& t, const TmTerm<Vector>& tv,
    const Field<scalar>& f, Field<scalar>& fs, Field<Vector>& fv, const dsl::Coeff& c, la::LinearSystem<scalar, localIdx>& l, la::LinearSystem<Vector, localIdx>& lv, dsl::Expression<scalar>& e, dsl::Expression<Vector>& ev, const Executor& ex, const Dictionary& in, const Input& ip)
{
    driveOp<scalar>(o, o, m, m, s, t, f, c, fs, l, ip); driveOp<Vector>(ov, ov, mv, mv, sv, tv, f, c, fv, lv, ip);
    driveEx<scalar>(e, e, o, m, fs, l, ex, in); driveEx<Vector>(ev, ev, ov, mv, fv, lv, ex, in);
}
}}
""")

EULER = UnitSpec("euler", FV_INC + r"""
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
""" + FV_DRIVER + r"""
namespace NeoFOAM { namespace cxv {
namespace fvcc = finiteVolume::cellCentred;
template<class T> void driveEuler(timeIntegration::ForwardEuler<fvcc::VolumeField<T>>& fe, timeIntegration::TimeIntegration<fvcc::VolumeField<T>>& ti, dsl::Expression<T>& e, fvcc::VolumeField<T>& f, const Dictionary& d, scalar t)
{
    fe.solve(e, f, t, t); (void)fe.clone(); (void)fe.name(); timeIntegration::ForwardEuler<fvcc::VolumeField<T>> g(d, d);
    ti.solve(e, f, t, t); timeIntegration::TimeIntegration<fvcc::VolumeField<T>> a(d, d); timeIntegration::TimeIntegration<fvcc::VolumeField<T>> b(ti);
}
template void driveEuler<scalar>(timeIntegration::ForwardEuler<fvcc::VolumeField<scalar>>&, timeIntegration::TimeIntegration<fvcc::VolumeField<scalar>>&, dsl::Expression<scalar>&, fvcc::VolumeField<scalar>&, const Dictionary&, scalar);
template void driveEuler<Vector>(timeIntegration::ForwardEuler<fvcc::VolumeField<Vector>>&, timeIntegration::TimeIntegration<fvcc::VolumeField<Vector>>&, dsl::Expression<Vector>&, fvcc::VolumeField<Vector>&, const Dictionary&, scalar);
}}
""")

OLDTIME = UnitSpec("oldtime", FV_INC + r"""
#include "%(R)s/src/core/dictionary.cpp"
#include "%(R)s/src/core/tokenList.cpp"
#include "%(R)s/src/core/demangle.cpp"
#include "%(R)s/src/core/database/document.cpp"
#include "%(R)s/src/core/database/collection.cpp"
#include "%(R)s/src/core/database/database.cpp"
#include "%(R)s/src/core/database/fieldCollection.cpp"
#include "%(R)s/src/core/database/oldTimeCollection.cpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
""" + FV_DRIVER + r"""
namespace NeoFOAM { namespace cxv {
namespace fvcc = finiteVolume::cellCentred;
// an opaque kind of registered field: its values are one number, its interface is that of the library's fields
struct FieldT
{
    using FieldValueType = scalar;
    std::string name; std::string key; std::string fieldCollectionName;
    long values; Database* owner; bool reg;
    const UnstructuredMesh& mesh() const; const Field<scalar>& internalField() const; const BoundaryFields<scalar>& boundaryField() const; const Executor& exec() const; std::vector<long> boundaryConditions() const;
    bool registered() const { return reg; }
    Database& db() { return *owner; }
    const Database& db() const { return *owner; }
    FieldT(const Executor&, std::string, const UnstructuredMesh&, const DomainField<scalar>&, const std::vector<long>&, Database&, std::string, std::string);
    FieldT(const FieldT& o) = default;
};
inline void driveOld(fvcc::OldTimeCollection& o, const fvcc::OldTimeCollection& co, fvcc::OldTimeDocument& d, const fvcc::OldTimeDocument& cd, fvcc::FieldCollection& f, const fvcc::FieldCollection& cf, fvcc::FieldDocument& fd, const fvcc::FieldDocument& cfd, Database& db, const Database& cdb, const std::string& s, FieldT& t, const FieldT& ct, const Document& doc)
{
    fvcc::OldTimeDocument a(s, s, s, 1); fvcc::OldTimeDocument b(doc); (void)d.nextTime(); (void)cd.nextTime(); (void)d.previousTime(); (void)cd.previousTime(); (void)d.currentTime(); (void)cd.currentTime(); (void)d.level(); (void)cd.level(); (void)cd.id();
    (void)co.contains(s); o.insert(d); (void)co.findNextTime(s); (void)co.findPreviousTime(s); (void)o.oldTimeDoc(s); (void)co.oldTimeDoc(s); (void)o.getOrInsert<FieldT>(s); (void)co.get<FieldT>(s);
    (void)fvcc::OldTimeCollection::instance(db, s, s); (void)fvcc::OldTimeCollection::instance(cdb, s); (void)fvcc::OldTimeCollection::instance(f); (void)fvcc::OldTimeCollection::instance(cf);
    (void)fvcc::FieldCollection::instance(db, s); (void)fvcc::FieldCollection::instance(cdb, s); (void)fvcc::FieldCollection::instance(t); (void)fvcc::FieldCollection::instance(ct);
    (void)fvcc::oldTime(t); (void)fvcc::oldTime(ct); (void)cf.contains(s); (void)f.insert(fd); (void)f.fieldDoc(s); (void)cf.fieldDoc(s); (void)f.registerField<FieldT>(fvcc::CreateFunction()); (void)fd.field<FieldT>(); (void)cfd.field<FieldT>();
    (void)fd.name(); (void)cfd.name(); (void)fd.timeIndex(); (void)cfd.timeIndex(); (void)fd.iterationIndex(); (void)cfd.iterationIndex(); (void)fd.subCycleIndex(); (void)cfd.subCycleIndex(); (void)cfd.id(); (void)fd.doc(); (void)cfd.doc();
    fvcc::FieldDocument e(doc);
    (void)db.at<fvcc::FieldCollection>(s); (void)db.at<fvcc::OldTimeCollection>(s);
}
inline void driveCopy(fvcc::CreateFromExistingField<fvcc::VolumeField<scalar>> a, fvcc::CreateFromExistingField<fvcc::VolumeField<Vector>> b, Database& db) { (void)a(db); (void)b(db); }
}}
""")

# the library's own operators behind the type-erased interface
FV_WRAP = UnitSpec("fvwrap", FV_IMPL.text + r'''
#include "%(R)s/src/dsl/spatialOperator.cpp"
#include "%(R)s/src/dsl/temporalOperator.cpp"
namespace NeoFOAM { namespace cxv {
template<class T> void useWrap(const fvcc::SourceTerm<T>& a, const fvcc::DdtOperator<T>& b, Field<T>& src, la::LinearSystem<T, localIdx>& s)
{
    dsl::SpatialOperator<T> x(a); x.explicitOperation(src); x.implicitOperation(s);
    dsl::TemporalOperator<T> y(b); y.explicitOperation(src, 0, 1); y.implicitOperation(s, 0, 1);
}
inline void driveWrap(const fvcc::SourceTerm<scalar>& a, const fvcc::DdtOperator<scalar>& b, const fvcc::SourceTerm<Vector>& av, const fvcc::DdtOperator<Vector>& bv, const fvcc::DivOperator<scalar>& d, const fvcc::LaplacianOperator<scalar>& l,
    Field<scalar>& src, Field<Vector>& srcv, la::LinearSystem<scalar, localIdx>& s, la::LinearSystem<Vector, localIdx>& sv)
{
    useWrap<scalar>(a, b, src, s); useWrap<Vector>(av, bv, srcv, sv);
    dsl::SpatialOperator<scalar> x(d), y(l);
}
}}
''')
