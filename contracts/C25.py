"""C25: a forward Euler step: new = old - dt * (explicit terms), boundary conditions corrected afterwards, new values stored as old ones."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import EULER

UNIT = EULER
TI = "NeoFOAM::timeIntegration::"
EXPR = "NeoFOAM::dsl::Expression"
ETYS = ("double", "NeoFOAM::Vector")


def step(ety, k):
    vf = CC + "VolumeField<%s>" % ety
    cls = TI + "ForwardEuler<%s>" % vf
    expr = EXPR + "<%s>" % ety

    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        phi = GeoV(w, M.st, "VolumeField", ety, "phi", M)
        old = GeoV(w, phi.st, "VolumeField", ety, "old", M)
        other = GeoV(w, old.st, "VolumeField", ety, "other", M)
        st = other.st
        e = c.T(ety)
        st, da = c.put(st, c.S.fresh(c.T("NeoFOAM::Dictionary"), "schemes"), "schemes")
        st, db = c.put(st, c.S.fresh(c.T("NeoFOAM::Dictionary"), "solution"), "solution")
        o = c.new(st, cls, ["const NeoFOAM::Dictionary &", "const NeoFOAM::Dictionary &"], [da, db])
        if len(o) != 1 or o[0].k != "v":
            raise Unsupported("construction of %s" % cls)
        st, this = (o[0].st, o[0].v) if isinstance(o[0].v, Path) else c.put(o[0].st, o[0].v, "euler")
        st, eqn = w.obj(st, expr, "eqn")
        eqn0 = c.X.read(st, eqn)
        if k == 0:
            def cl(s2, v):
                q = c.X.load(s2, v)
                return [("a copy is an equal integrator of the same class", z3.And(any_is(c, q, cls), c.X.deep_eq(c.X.load(s2, this), c.S.from_any(q, c.T(cls).strip()))))]
            c.expect("%s::clone" % cls, c.call(st, meth(c, cls, "clone", n=0), this, []), cl, cover=("v",))
        S = z3.Function("sources", I, c.S.sort(e))
        t = z3.Int(fresh_name("t"))
        nb = z3.Array("corrected", I, c.S.sort(e))
        dt, time = z3.Reals("dt time")
        newval = lambda q, t: comps(c, e, old.int.arr[t])[q] - dt * comps(c, e, S(t))[q]
        N = len(comps(c, e, S(t)))
        log = []

        def evaluate(X, d, s, p, args):
            """Expression::explicitOperation (C21): a new field holding the sum of the explicit terms"""
            ps = X.u.params(d)
            if len(ps) != 1 or "Field" in ps[0]["type"]["qualType"]:
                raise Unsupported("another evaluation of the expression")
            n = X.load(s, args[0])
            log.append("evaluate")
            c.prove("the explicit terms are those of the equation", s, z3.BoolVal(isinstance(p, Path) and p.same(eqn)))
            c.prove("they are evaluated before anything changes, for every cell", s, z3.And(n == M.nC, phi.same(s), old.same(s)))
            s, fv, v = mkfield(c, s, ety, fresh_name("source"), k, n=M.nC, at=True, ex=w.ex)
            t = z3.Int(fresh_name("t"))
            return [Out(s.assume(z3.ForAll([t], fv.arr[t] == S(t), patterns=[fv.arr[t]])), "v", v)]
        c.X.contracts[EXPR + "::explicitOperation"] = evaluate
        asked = []

        def level(X, d, s, p, args):
            asked.append(isinstance(args[0], Path) and args[0].same(phi.path))
            return [Out(s, "v", old.path)]
        c.X.contracts[CC + "oldTime"] = level

        def correct(X, d, s, p, args):
            log.append("correct")
            c.prove("the boundary conditions of the solution are corrected", s, z3.BoolVal(isinstance(p, Path) and p.same(phi.path)))
            n, arr, sz, ex = data(c, s, phi.int)
            t = z3.Int(fresh_name("t"))
            c.prove("after every cell has its new value", s, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nC), z3.And(*[comps(c, e, arr[t])[q] == newval(q, t) for q in range(N)]))))
            c.prove("before that no boundary value changes", s, z3.And(*[unchanged(c, s, b) for b in phi.all()[1:]]))
            r = root_of(c, s, phi.value.path)
            b = s.store[r]
            s = s.copy()
            s.store[r] = SeqV(b.ety, b.n, nb)
            return [Out(s, "v", None)]
        c.X.contracts[CC + "VolumeField::correctBoundaryConditions"] = correct
        outs = c.call(st, meth(c, cls, "solve", n=4), this, [eqn, phi.path, time, dt])

        def ret(s, _):
            t = z3.Int(fresh_name("t"))
            inn = z3.And(0 <= t, t < M.nC)
            n, arr, sz, ex = data(c, s, phi.int)
            on, oarr, osz, oex = data(c, s, old.int)
            g = [("every cell is the old value minus the time step times the explicit terms, component %d" % q, z3.And(n == M.nC, sz == M.nC, z3.Implies(inn, comps(c, e, arr[t])[q] == newval(q, t)))) for q in range(N)]
            g += [("the new values are stored as the old-time values, component %d" % q, z3.And(on == M.nC, osz == M.nC, z3.Implies(inn, comps(c, e, oarr[t])[q] == newval(q, t)))) for q in range(N)]
            g.append(("on the same executor", z3.And(ex.idx == w.ex.idx, oex.idx == w.ex.idx)))
            g.append(("in storage of their own", z3.BoolVal(root_of(c, s, phi.int.path) != root_of(c, s, old.int.path) and root_of(c, s, phi.int.path) == phi.int.root and root_of(c, s, old.int.path) == old.int.root)))
            g.append(("the terms are evaluated once, then the boundary conditions corrected once", z3.BoolVal(log == ["evaluate", "correct"])))
            g.append(("the old level is the solution's own", z3.BoolVal(len(asked) >= 1 and all(asked))))
            vn, va, vs, _ = data(c, s, phi.value)
            g.append(("the corrected boundary values are kept", z3.And(vn == M.nB, vs == M.nB, z3.Implies(z3.And(0 <= t, t < M.nB), eqel(c, e, va[t], nb[t])))))
            g.append(("no other boundary data changes", z3.And(*[unchanged(c, s, b) for b in phi.all()[2:] + old.all()[1:]])))
            g.append(("no other field changes", other.same(s)))
            g.append(("the equation is unchanged", c.X.deep_eq(c.X.read(s, eqn), eqn0)))
            return g + [M.same(s)]
        c.expect("%s::solve %s" % (cls, EXECS[k]), outs, ret, cover=("v",))
    return f


def select(ety):
    """TimeIntegration: the integrator the dictionary names, given both dictionaries, advances what it is given"""
    vf = CC + "VolumeField<%s>" % ety
    cls = TI + "TimeIntegration<%s>" % vf
    base = TI + "TimeIntegratorBase<%s>" % vf

    def f(c):
        st = c.state()
        st, a = c.put(st, c.S.fresh(c.T("NeoFOAM::Dictionary"), "schemes"), "schemes")
        st, b = c.put(st, c.S.fresh(c.T("NeoFOAM::Dictionary"), "solution"), "solution")
        name = c.S.fresh(c.T("std::string"), "integrator_name")
        asked, made = [], []

        def get(X, d, s, this, args):
            asked.append((this, X.load(s, args[0]), d["type"]["qualType"]))
            s, q = c.put(s, name, "looked_up")
            return [Out(s, "v", q)]
        c.X.contracts["NeoFOAM::Dictionary::get"] = get
        strategy = c.S.fresh(c.T("std::unique_ptr<%s>" % base), "strategy")

        def create(X, d, s, this, args):
            made.append((X.load(s, args[0]), args[1:]))
            return [Out(s, "v", strategy)]
        c.X.contracts["NeoFOAM::RuntimeSelectionFactory<%s, NeoFOAM::Parameters<const NeoFOAM::Dictionary &, const NeoFOAM::Dictionary &>>::create" % base] = create
        c.X.contracts["NeoFOAM::RuntimeSelectionFactory::create"] = create
        calls = []

        def run(X, md, s, obj, args):
            s = s.copy()
            s.store["steps"] = s.store.get("steps", ()) + ((obj.root, tuple(args[:2]), X.load(s, args[2]), X.load(s, args[3])),)
            return [Out(s, "v", None)]

        def clone(X, md, s, obj, args):
            return [Out(s, "v", X.read(s, Path(obj.root, obj.steps[:-1])))]
        for q in (TI + "TimeIntegratorBase::", base + "::"):
            c.X.abstract_impl[q + "solve"] = run
            c.X.abstract_impl[q + "clone"] = clone
        s0, eqn = c.put(st, c.S.fresh(c.T("int")), "eqn")
        s0, sol = c.put(s0, c.S.fresh(c.T("int")), "sol")
        time, dt = z3.Reals("time dt")
        for o in c.new(s0, cls, ["const NeoFOAM::Dictionary &", "const NeoFOAM::Dictionary &"], [a, b]):
            if o.k != "v":
                c.expect("%s: constructor" % cls, [o])
                continue
            s, this = o.st, o.v
            if not isinstance(this, Path):
                s, this = c.put(s, this, "integration")
            ok = len(made) == 1 and len(made[0][1]) == 2 and made[0][1][0].same(a) and made[0][1][1].same(b)
            c.prove("%s: one integrator is created from the given dictionaries" % cls, s, z3.BoolVal(ok))
            look = len(asked) == 1 and isinstance(asked[0][0], Path) and asked[0][0].same(a)
            c.prove("%s: of the type the scheme dictionary names" % cls, s, z3.And(z3.BoolVal(ok and look), made[0][0] == name, asked[0][1] == c.S.lit("type")) if ok and look else z3.BoolVal(False))
            objs = [("", s, this)]
            for o2 in c.new(s, cls, ["const %s &" % cls], [this]):
                if o2.k == "v":
                    s2, t2 = o2.st, o2.v
                    if not isinstance(t2, Path):
                        s2, t2 = c.put(s2, t2, "integration_copy")
                    objs.append((" (copy)", s2, t2))
            c.prove("%s: can be copied" % cls, s, z3.BoolVal(len(objs) == 2))
            for nm, s, obj in objs:
                def ret(s, _, obj=obj):
                    x = s.store.get("steps", ())
                    one = len(x) == 1 and x[0][0] == obj.root and x[0][1][0].same(eqn) and x[0][1][1].same(sol)
                    return [("the integrator is run once with the same equation, solution, time and step", z3.And(z3.BoolVal(one), x[0][2] == time, x[0][3] == dt) if one else z3.BoolVal(False))]
                c.expect("%s%s::solve" % (cls, nm), c.call(s, meth(c, cls, "solve", n=4), obj, [eqn, sol, time, dt]), ret, cover=("v",))
    return f


CONTRACTS = [("ForwardEuler<%s> %s" % (e, EXECS[k]), step(e, k)) for e in ETYS for k in range(3)] + [("TimeIntegration<%s>" % e, select(e)) for e in ETYS]
