// C21: coefficients, operators and expressions put together by random programs, every evaluation against the list of terms kept beside
#include "ops.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "src/dsl/spatialOperator.cpp"
#include "src/dsl/temporalOperator.cpp"

template<class T> struct Term
{
    bool temporal, impl;
    int id;
    double a;
    const std::vector<double>* fld;
    const std::vector<T>* base;
    double at(size_t i) const { return fld ? a * (*fld)[i] : a; }
};
// terms that multiply a field by their number (and, with time, by the time and the step)
template<class T> struct Sp : dsl::OperatorMixin<VolumeField<T>>
{
    using FieldValueType = T;
    int id;
    Sp(VolumeField<T>& f, int i, bool impl) : dsl::OperatorMixin<VolumeField<T>>(f.exec(), dsl::Coeff(1.0), f, impl ? dsl::Operator::Type::Implicit : dsl::Operator::Type::Explicit), id(i) {}
    void add(Field<T>& s, double x) const
    {
        for (size_t i = 0; i < s.size(); i++) s.data()[i] = addv(s.data()[i], mulv(this->coeffs_[i] * x, this->field_.internalField().data()[i]));
    }
    void explicitOperation(Field<T>& s) const { add(s, id); }
    void implicitOperation(la::LinearSystem<T, localIdx>& s) const { add(s.rhs(), 2 * id); add(s.matrix().values(), 3 * id); }
    std::string getName() const { return "Sp"; }
};
template<class T> struct Tm : Sp<T>
{
    using Sp<T>::Sp;
    void explicitOperation(Field<T>& s, double t, double dt) const { this->add(s, this->id * (t + 7 * dt)); }
    void implicitOperation(la::LinearSystem<T, localIdx>& s, double t, double dt) const { this->add(s.rhs(), this->id * (2 * t + dt)); this->add(s.matrix().values(), this->id * dt); }
};
template<class T> using Ex = dsl::Expression<T>;
template<class T> struct Pair
{
    Ex<T> e;
    std::vector<Term<T>> m;
    Pair(const Executor& x) : e(x) {}
    Pair(const Ex<T>& x, const std::vector<Term<T>>& n) : e(x), m(n) {}
};
template<class T> std::vector<Term<T>> scaled(std::vector<Term<T>> m, double s)
{
    for (auto& t : m) t.a *= s;
    return m;
}
template<class T> std::vector<Term<T>> joined(std::vector<Term<T>> a, const std::vector<Term<T>>& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
template<class T> struct World
{
    Executor e;
    UnstructuredMesh um;
    size_t n;
    Vol<T> phi;
    std::vector<double> f1, f2;
    Field<double> k1, k2;
    std::vector<Pair<T>> pool;
    World(const Executor& x, const Mesh& m) : e(x), um(build(x, m)), n(m.nC), phi(x, um, m), f1(rvec<double>(n)), f2(rvec<double>(n)), k1(mk(x, f1)), k2(mk(x, f2)) {}
    Term<T> term(bool temporal) { return {temporal, chance(1, 3), 1 + (int)rnd(9), 1, nullptr, &phi.v}; }
    dsl::SpatialOperator<T> sp(Term<T>& t) { return vary(t, dsl::SpatialOperator<T>(Sp<T>(phi.f, t.id, t.impl))); }
    dsl::TemporalOperator<T> tm(Term<T>& t) { return vary(t, dsl::TemporalOperator<T>(Tm<T>(phi.f, t.id, t.impl))); }
    template<class O> O vary(Term<T>& t, O o)
    {
        const double s = (1 + rnd(9)) / 4.0 * (chance(1, 3) ? -1 : 1);
        switch (rnd(5))
        {
        case 0: t.a *= s; return s * o;
        case 1: t.fld = &f1; return k1 * o;
        case 2: t.fld = &f2; t.a *= s; return dsl::Coeff(s, k2) * o;
        case 3: t.fld = &f1; t.a *= s; return s * (k1 * o);
        default: return o;
        }
    }
    void check(const Pair<T>& p, const std::string& w)
    {
        size_t ns = 0, nt = 0;
        for (auto& t : p.m) (t.temporal ? nt : ns)++;
        CHECK(p.e.size() == p.m.size(), w + ": has " + std::to_string(p.e.size()) + " terms instead of " + std::to_string(p.m.size()));
        CHECK(p.e.spatialOperators().size() == ns && p.e.temporalOperators().size() == nt, w + ": terms of another kind");
        CHECK(alt(p.e.exec()) == alt(e), w + ": executor");
        auto v0 = rvec<T>(n);
        const double t = rnd(9), dt = (1 + rnd(8)) / 8.0;
        std::vector<T> es(n, zeroOf<T>()), ea = v0, et = v0;
        std::vector<double> mag(n, 1e3);
        auto sys = [&](size_t k) { return rvec<T>(k); };
        std::vector<T> m0 = sys(n), b0 = sys(n), ms = m0, bs = b0, mt = m0, bt = b0;
        for (auto& x : p.m)
            for (size_t i = 0; i < n; i++)
            {
                auto put = [&](std::vector<T>& to, double c) { to[i] = addv(to[i], mulv(x.at(i) * c * x.id, phi.v[i])); mag[i] += std::fabs(x.at(i) * c * x.id) * size1(phi.v[i]); };
                if (!x.temporal && !x.impl) put(es, 1), put(ea, 1);
                if (x.temporal && !x.impl) put(et, t + 7 * dt);
                if (!x.temporal && x.impl) put(bs, 2), put(ms, 3);
                if (x.temporal && x.impl) put(bt, 2 * t + dt), put(mt, dt);
            }
        isnear(p.e.explicitOperation(n), es, mag, w + ": explicit evaluation");
        Field<T> a = mk(e, v0), b = mk(e, v0);
        isnear(p.e.explicitOperation(a), ea, mag, w + ": explicit evaluation into a field, result");
        isnear(a, ea, mag, w + ": explicit evaluation into a field");
        isnear(p.e.explicitOperation(b, t, dt), et, mag, w + ": explicit evaluation of the temporal terms, result");
        isnear(b, et, mag, w + ": explicit evaluation of the temporal terms");
        std::vector<localIdx> col(n), row(n + 1);
        for (size_t i = 0; i < n; i++) col[i] = i, row[i + 1] = i + 1;
        for (int k = 0; k < 2; k++)
        {
            la::LinearSystem<T, localIdx> ls(la::CSRMatrix<T, localIdx>(mk(e, m0), mk(e, col), mk(e, row)), mk(e, b0));
            Ex<T> q(p.e);
            if (k) q.implicitOperation(ls, t, dt); else q.implicitOperation(ls);
            isnear(ls.matrix().values(), k ? mt : ms, mag, w + ": implicit evaluation, matrix");
            isnear(ls.rhs(), k ? bt : bs, mag, w + ": implicit evaluation, right-hand side");
        }
    }
    void all(const std::string& w)
    {
        for (size_t i = 0; i < pool.size(); i++) check(pool[i], w + ", expression " + std::to_string(i));
    }
    void make()
    {
        Term<T> a = term(chance(1, 3)), b = term(chance(1, 3));
        const double s = (1 + rnd(9)) / 4.0 * (chance(1, 2) ? -1 : 1);
        const size_t i = pool.empty() ? 0 : rnd(pool.size()), j = pool.empty() ? 0 : rnd(pool.size());
        const bool few = !pool.empty() && pool[i].m.size() + pool[j].m.size() < 24;
        auto nm = [](size_t k) { return "expression " + std::to_string(k); };
        auto two = [&](auto l, auto r)
        {
            if (chance(1, 2)) { step("operator + operator"); pool.emplace_back(l + r, std::vector<Term<T>> {a, b}); }
            else { step("operator - operator"); pool.emplace_back(l - r, joined<T>({a}, scaled<T>({b}, -1))); }
        };
        switch (pool.empty() ? rnd(2) : rnd(12))
        {
        case 0: step("empty expression"); pool.emplace_back(e); break;
        case 1:
            if (a.temporal && b.temporal) two(tm(a), tm(b));
            else if (a.temporal) two(tm(a), sp(b));
            else if (b.temporal) two(sp(a), tm(b));
            else two(sp(a), sp(b));
            break;
        case 2: case 3:
            step("addOperator to " + nm(i));
            if (a.temporal) { auto o = tm(a); pool[i].e.addOperator(o); } else { auto o = sp(a); pool[i].e.addOperator(o); }
            pool[i].m.push_back(a);
            break;
        case 4: if (few) { step(nm(i) + ".addExpression(" + nm(j) + ")"); pool[i].e.addExpression(pool[j].e); pool[i].m = joined(pool[i].m, std::vector<Term<T>>(pool[j].m)); } break;
        case 5: if (few) { step(nm(i) + " + " + nm(j)); pool.emplace_back(pool[i].e + pool[j].e, joined(pool[i].m, pool[j].m)); } break;
        case 6: if (few) { step(nm(i) + " - " + nm(j)); pool.emplace_back(pool[i].e - pool[j].e, joined(pool[i].m, scaled(pool[j].m, -1))); } break;
        case 7: step(std::to_string(s) + " * " + nm(i)); pool.emplace_back(s * pool[i].e, scaled(pool[i].m, s)); break;
        case 8: a = term(false); step(nm(i) + " + operator"); { auto o = sp(a); pool.emplace_back(pool[i].e + o, joined<T>(pool[i].m, {a})); } break;
        case 9: a = term(false); step(nm(i) + " - operator"); { auto o = sp(a); pool.emplace_back(pool[i].e - o, joined<T>(pool[i].m, scaled<T>({a}, -1))); } break;
        case 10: step("copy of " + nm(i)); pool.emplace_back(Ex<T>(pool[i].e), pool[i].m); break;
        default:
            if (!pool[i].m.empty() && !pool[i].e.spatialOperators().empty())
            {
                step("operator taken from " + nm(i));
                size_t k = rnd(pool[i].e.spatialOperators().size()), c = 0;
                Term<T> t {};
                for (auto& x : pool[i].m) if (!x.temporal && c++ == k) t = x;
                dsl::SpatialOperator<T> o(pool[i].e.spatialOperators()[k]);
                o = s * o;
                t.a *= s;
                Ex<T> x(e);
                x.addOperator(o);
                pool.emplace_back(x, std::vector<Term<T>> {t});
            }
        }
        while (pool.size() > 5) { std::vector<Pair<T>> q; for (size_t k = 1; k < pool.size(); k++) q.emplace_back(pool[k].e, pool[k].m); pool.swap(q); step("drop expression 0"); }
    }
};
// coefficients on their own
void coeffs(const Executor& e)
{
    const size_t n = 1 + rnd(20);
    auto f = rvec<double>(n), g = rvec<double>(n);
    Field<double> ff = mk(e, f), gg = mk(e, g);
    struct M { double a; const std::vector<double>* f; double at(size_t i) const { return f ? a * (*f)[i] : a; } };
    auto mk1 = [&](const Field<double>& fl, const std::vector<double>& v, M& m)
    {
        const double a = RV<double>::get() / 40;
        switch (rnd(4))
        {
        case 0: m = {1, nullptr}; return dsl::Coeff();
        case 1: m = {a, nullptr}; return dsl::Coeff(a);
        case 2: m = {1, &v}; return dsl::Coeff(fl);
        default: m = {a, &v}; return dsl::Coeff(a, fl);
        }
    };
    M a, b;
    dsl::Coeff x = mk1(ff, f, a), y = mk1(gg, g, b);
    auto same = [&](dsl::Coeff& c, const M& m, const std::string& w)
    {
        CHECK(c.hasSpan() == (m.f != nullptr), w + ": says it has " + (c.hasSpan() ? "a field" : "no field"));
        for (size_t i = 0; i < n; i++) CHECK(near(c[i], m.at(i)), w + ": element " + std::to_string(i));
        if (m.f) CHECK(c.view().size() == n, w + ": view");
    };
    step(std::string("coefficients: ") + (a.f ? "field" : "number") + " and " + (b.f ? "field" : "number"));
    same(x, a, "left coefficient"), same(y, b, "right coefficient");
    if (!(a.f && b.f))
    {
        dsl::Coeff p = x * y;
        M m {a.a * b.a, a.f ? a.f : b.f};
        same(p, m, "product"), same(x, a, "left factor"), same(y, b, "right factor");
        dsl::Coeff q = x;
        q *= y;
        same(q, m, "product in place"), same(y, b, "right factor");
    }
    const double s = RV<double>::get() / 40;
    dsl::Coeff q = x;
    dsl::Coeff& r = (q *= s);
    CHECK(&r == &q, "*= returns another coefficient");
    same(q, {a.a * s, a.f}, "scaled coefficient"), same(x, a, "the original");
    Field<double> to(e, rnd(5), 3.0);
    dsl::detail::toField(x, to);
    CHECK(to.size() == (a.f ? n : 1), "toField: size " + std::to_string(to.size()));
    for (size_t i = 0; i < to.size(); i++) CHECK(near(to.data()[i], a.at(i)), "toField: element " + std::to_string(i));
    is(ff, f, "the field of a coefficient"), is(gg, g, "the field of a coefficient");
}
template<class T> void terms(const Executor& e, const Mesh& m)
{
    UnstructuredMesh um = build(e, m);
    Cf c(e, m.nC);
    auto s0 = rvec<T>(m.nC);
    Field<T> s = mk(e, s0);
    std::vector<double> mag(m.nC, 1);
    auto add = [&](size_t i, double k, const T& x) { s0[i] = addv(s0[i], mulv(k, x)); mag[i] += std::fabs(k) * size1(x); };
    if (chance(1, 2))
    {
        Vol<T> phi(e, um, m);
        Vol<double> k(e, um, m, "coefficients");
        step("explicit source term: " + m.str());
        fvcc::SourceTerm<T> op(dsl::Operator::Type::Explicit, k.f, phi.f);
        op.getCoefficient() = c.get();
        op.explicitOperation(s);
        for (size_t i = 0; i < m.nC; i++) add(i, c.at(i) * k.v[i], phi.v[i]);
        is(phi.f.internalField(), phi.v, "the field");
    }
    else
    {
        Database db;
        auto& fc = fvcc::FieldCollection::instance(db, "fields");
        auto v = rvec<T>(m.nC), old = rvec<T>(m.nC);
        auto& phi = registerField<T>(fc, "phi", um, v);
        put(fvcc::oldTime(phi).internalField(), old);
        const double dt = (1 + rnd(16)) / 16.0;
        step("explicit time derivative: " + m.str());
        fvcc::DdtOperator<T> op(dsl::Operator::Type::Explicit, phi);
        op.getCoefficient() = c.get();
        op.explicitOperation(s, rnd(10), dt);
        for (size_t i = 0; i < m.nC; i++) { const double k = c.at(i) * m.vol[i] / dt; add(i, k, v[i]); add(i, -k, old[i]); }
        is(phi.internalField(), v, "the field");
    }
    isnear(s, s0, mag, last());
}
// the library's own operators inside an expression do what they do on their own
template<class T> void same(Field<T> a, const Field<T>& b, const std::string& w)
{
    is(a, get(b), w);
}
template<class T> void wrapped(const Executor& e, const Mesh& m)
{
    UnstructuredMesh um = build(e, m);
    Cf c(e, m.nC);
    const bool temporal = chance(1, 2), impl = chance(1, 2);
    const auto type = impl ? dsl::Operator::Type::Implicit : dsl::Operator::Type::Explicit;
    const double t = rnd(9), dt = (1 + rnd(16)) / 16.0;
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto& phi = registerField<T>(fc, "phi", um, rvec<T>(m.nC));
    put(fvcc::oldTime(phi).internalField(), rvec<T>(m.nC));
    Vol<double> k(e, um, m, "coefficients");
    auto sp = fvcc::SparsityPattern::readOrCreate(um);
    auto la1 = la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp), la2 = la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp);
    Field<T> s1 = mk(e, rvec<T>(m.nC)), s2(s1);
    dsl::Expression<T> x(e);
    step(std::string(impl ? "implicit " : "explicit ") + (temporal ? "time derivative" : "source term") + " inside an expression: " + m.str());
    if (temporal)
    {
        fvcc::DdtOperator<T> op(type, phi);
        op.getCoefficient() = c.get();
        x.addOperator(dsl::TemporalOperator<T>(op));
        if (impl) { op.implicitOperation(la1, t, dt); x.implicitOperation(la2, t, dt); }
        else { op.explicitOperation(s1, t, dt); (void)x.explicitOperation(s2, t, dt); }
    }
    else
    {
        fvcc::SourceTerm<T> op(type, k.f, phi);
        op.getCoefficient() = c.get();
        x.addOperator(dsl::SpatialOperator<T>(op));
        if (impl) { op.implicitOperation(la1); x.implicitOperation(la2); }
        else { op.explicitOperation(s1); (void)x.explicitOperation(s2); }
    }
    same(s2, s1, last() + ": the source");
    same(la2.matrix().values(), la1.matrix().values(), last() + ": the matrix");
    same(la2.rhs(), la1.rhs(), last() + ": the right-hand side");
}
template<class T> void programs(const Executor& e, const Mesh& m)
{
    World<T> w(e, m);
    for (long k = 2 + rnd(12); k > 0; k--) { w.make(); w.all(last()); }
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nC > 1) ++nontrivial;
        switch (rnd(5))
        {
        case 4: if (chance(1, 2)) wrapped<double>(e, m); else wrapped<Vector>(e, m); break;
        case 0: coeffs(e); break;
        case 1: if (chance(1, 2)) terms<double>(e, m); else terms<Vector>(e, m); break;
        case 2: programs<double>(e, m); break;
        default: programs<Vector>(e, m);
        }
    } while (!timeUp());
    stats();
}
