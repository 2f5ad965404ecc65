// C25: registered fields advanced by random sequences of forward Euler steps, against the step written out per cell
#include "ops.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "src/dsl/spatialOperator.cpp"
#include "src/dsl/temporalOperator.cpp"
template class NeoFOAM::timeIntegration::ForwardEuler<VolumeField<double>>;
template class NeoFOAM::timeIntegration::ForwardEuler<VolumeField<Vector>>;

enum Kind { fixedValue, extrapolated, calculated };
// the field with these conditions, registered
template<class T> struct Reg
{
    std::string name;
    const UnstructuredMesh& mesh;
    const std::vector<T>& v;
    const std::vector<VolumeBoundary<T>>& bcs;
    Document operator()(Database& db)
    {
        DomainField<T> d(mesh.exec(), mk(mesh.exec(), v), mesh.boundaryMesh().offset());
        VolumeField<T> vf(mesh.exec(), name, mesh, d, bcs, db, "", "");
        return Document({{"name", vf.name}, {"timeIndex", std::int64_t(3)}, {"iterationIndex", std::int64_t(0)}, {"subCycleIndex", std::int64_t(0)}, {"field", vf}}, fvcc::validateFieldDoc);
    }
};
// a term that adds number * own field (which may be the solution) + constant
template<class T> struct Term : dsl::OperatorMixin<VolumeField<T>>
{
    using FieldValueType = T;
    double a;
    T add;
    long* count;
    Term(VolumeField<T>& f, double x, T y, long* n, bool impl) : dsl::OperatorMixin<VolumeField<T>>(f.exec(), dsl::Coeff(1.0), f, impl ? dsl::Operator::Type::Implicit : dsl::Operator::Type::Explicit), a(x), add(y), count(n) {}
    void explicitOperation(Field<T>& s) const
    {
        ++*count;
        for (size_t i = 0; i < s.size(); i++) s.data()[i] = addv(s.data()[i], mulv(this->coeffs_[i], addv(mulv(a, this->field_.internalField().data()[i]), add)));
    }
    void implicitOperation(la::LinearSystem<T, localIdx>&) const { CHECK(false, "an implicit term was used"); }
    std::string getName() const { return "Term"; }
};
template<class T> struct Model
{
    std::vector<T> v, old;
    bool hasOld = false;
};
template<class T> void run(const Executor& e, const Mesh& m)
{
    UnstructuredMesh um = build(e, m);
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    std::vector<VolumeBoundary<T>> bcs;
    std::vector<Kind> kind;
    std::vector<T> fixed;
    for (size_t p = 0; p < m.nP; p++)
    {
        kind.push_back((Kind)rnd(3));
        fixed.push_back(rv<T>());
        Dictionary d;
        d.insert("type", std::string(kind[p] == fixedValue ? "fixedValue" : kind[p] == extrapolated ? "extrapolated" : "calculated"));
        if (kind[p] == fixedValue) d.insert("fixedValue", fixed[p]);
        bcs.emplace_back(um, d, p);
    }
    auto small = [&](std::vector<T> x) { for (auto& y : x) y = mulv(0.01, y); return x; };
    const size_t nf = 1 + rnd(2);
    std::vector<VolumeField<T>*> f;
    std::vector<Model<T>> md(2);
    for (size_t i = 0; i < 2; i++)
    {
        md[i].v = small(rvec<T>(m.nC));
        f.push_back(&fc.registerField<VolumeField<T>>(Reg<T> {"u" + std::to_string(i), um, md[i].v, bcs}));
    }
    Vol<T> other(e, um, m, "other");
    for (auto& x : other.v) x = mulv(0.01, x);
    put(other.f.internalField(), other.v);
    Dictionary schemes, solution;
    schemes.insert("type", std::string("forwardEuler"));
    timeIntegration::TimeIntegration<VolumeField<T>> ti(schemes, solution), copy(ti);
    double t = 0;
    for (long n = 1 + rnd(7); n > 0; n--)
    {
        const size_t k = rnd(nf);
        const double dt = chance(1, 10) ? 0 : (1 + rnd(8)) / 16.0;
        if (chance(1, 4))
        {
            step("the field is set by the user");
            md[k].v = small(rvec<T>(m.nC));
            put(f[k]->internalField(), md[k].v);
        }
        if (chance(1, 5))
        {
            step("the old-time level is asked for");
            if (!md[k].hasOld) { md[k].hasOld = true; md[k].old = md[k].v; }
            is(fvcc::oldTime(*f[k]).internalField(), md[k].old, "the old-time values");
        }
        // an equation of some terms
        dsl::Expression<T> eqn(e);
        std::vector<T> sum(m.nC, zeroOf<T>());
        long count = 0, want = 0;
        for (long q = rnd(4); q > 0; q--)
        {
            const double a = (int)(rnd(17) - 8) / 8.0, s = chance(1, 2) ? 1 : (int)(rnd(9) - 4) / 4.0;
            const T c = mulv(0.01, rv<T>());
            const size_t from = rnd(3);
            const bool impl = chance(1, 5);
            VolumeField<T>& src = from == 2 ? other.f : *f[from];
            dsl::SpatialOperator<T> o(Term<T>(src, a, c, &count, impl));
            eqn.addOperator(s == 1 ? o : s * o);
            if (impl) continue;
            want++;
            const auto& x = from == 2 ? other.v : md[from].v;
            for (size_t i = 0; i < m.nC; i++) sum[i] = addv(sum[i], mulv(s, addv(mulv(a, x[i]), c)));
        }
        step("step " + std::to_string(dt) + " of field " + std::to_string(k) + " with " + std::to_string(want) + " explicit terms: " + m.str());
        if (!md[k].hasOld) { md[k].hasOld = true; md[k].old = md[k].v; }
        const auto bv0 = get(f[k]->boundaryField().value());
        (chance(1, 2) ? ti : copy).solve(eqn, *f[k], t, dt);
        t += dt;
        for (size_t i = 0; i < m.nC; i++) md[k].v[i] = addv(md[k].old[i], mulv(-dt, sum[i]));
        md[k].old = md[k].v;
        CHECK(count == want, "the explicit terms are evaluated " + std::to_string(count) + " times instead of " + std::to_string(want));
        std::vector<double> mag(m.nC, 1e2);
        for (size_t j = 0; j < 2; j++)
        {
            const std::string w = last() + ", field " + std::to_string(j);
            isnear(f[j]->internalField(), md[j].v, mag, w);
            if (md[j].hasOld) isnear(fvcc::oldTime(*f[j]).internalField(), md[j].old, mag, w + ", old-time values");
            // continue from exactly what the code computed
            md[j].v = get(f[j]->internalField());
            if (md[j].hasOld) md[j].old = get(fvcc::oldTime(*f[j]).internalField());
        }
        is(other.f.internalField(), other.v, "another field");
        is(other.f.boundaryField().value(), other.bval, "the boundary of another field");
        CHECK(alt(f[k]->exec()) == alt(e) && alt(f[k]->internalField().exec()) == alt(e), "executor of the solution");
        CHECK(m.nC == 0 || f[k]->internalField().data() != fvcc::oldTime(*f[k]).internalField().data(), "the solution shares its storage with the old level");
        const auto bv = get(f[k]->boundaryField().value());
        for (size_t p = 0; p < m.nP; p++)
            for (localIdx i = m.off[p]; i < m.off[p + 1]; i++)
                CHECK(near(bv[i], kind[p] == fixedValue ? fixed[p] : kind[p] == extrapolated ? md[k].v[m.fc[i]] : bv0[i], 1), last() + ": boundary face " + std::to_string(i) + " after the step");
    }
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = rndExec();
        Mesh m = rmesh();
        if (m.nC > 1) ++nontrivial;
        if (chance(1, 2)) run<double>(e, m); else run<Vector>(e, m);
    } while (!timeUp());
    stats();
}
