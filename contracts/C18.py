"""C18: boundary conditions set exactly the faces of their own patch to what they prescribe."""
from .common import *
from .fields import *
from .mesh import *
from cxv.units import FV_BC

UNIT = FV_BC
MIX = CC + "BoundaryPatchMixin"
ETYS = ("double", "NeoFOAM::Vector")
VOL, SURF = "volumeBoundary", "surfaceBoundary"


def dictionary(c, st, vals):
    """an arbitrary dictionary; what get returns is in vals: type -> value (its look-up is C10)"""
    st, p = c.put(st, c.S.fresh(c.T("NeoFOAM::Dictionary"), "dict"), "dict")
    asked = []

    def get(X, d, s, this, args):
        rt = d["type"]["qualType"].split("(")[0]
        key = X.load(s, args[0])
        for ty, v in vals.items():
            if "string" in ty and "string" in rt or ty == "value" and "string" not in rt:
                asked.append((this, key, ty))
                s2, q = c.put(s, v, "looked_up_%s" % ty.split(":")[-1])
                return [Out(s2, "v", q)]
        raise Unsupported("dictionary look-up of %s" % rt)
    c.X.contracts["NeoFOAM::Dictionary::get"] = get
    return st, p, asked


def patch(c, M, st):
    p = z3.Int("patch")
    return st.assume(z3.And(0 <= p, p < M.nP)), p, M.off.arr[p], M.off.arr[p + 1]


def inpatch(lo, hi, t, yes):
    return z3.ForAll([t], z3.Implies(z3.And(lo <= t, t < hi), yes))


def content(c, s, fv):
    b = s.store[root_of(c, s, fv.path)]
    return b


def condition(cond, space, ety, k):
    cls = CC + space + "::" + cond + "<%s>" % ety

    def f(c):
        w = World(c, k)
        M = MeshV(w, c.state())
        kind = "VolumeField" if space == VOL else "SurfaceField"
        D = DomV(w, M.st, kind, ety, "field", M)
        st, p, lo, hi = patch(c, M, D.st)
        e = c.T(ety)
        val = c.S.fresh(e, "prescribed")
        st, dct, asked = dictionary(c, st, {"value": val})
        pv = comps(c, e, c.S.pack(val, e))
        cell = lambda t: comps(c, e, D.int.arr[M.faceCells.arr[t]])
        for o in c.new(st, cls, ["const %s &" % MESH, "const NeoFOAM::Dictionary &", "size_t"], [M.path, dct, p]):
            if o.k != "v":
                c.expect("%s, %s: constructor" % (cls, EXECS[k]), [o])
                continue
            s, this = o.st, o.v
            if not isinstance(this, Path):
                s, this = c.put(s, this, "condition")
            outs = c.call(s, meth(c, cls, "correctBoundaryCondition", n=1), this, [D.path])

            def ret(s, _):
                t = z3.Int(fresh_name("t"))
                new = {n: content(c, s, getattr(D, n)) for n in ("value", "ref", "frac", "grad", "int")}
                at = lambda n, t: comps(c, e, new[n].arr[t]) if n != "frac" else [new[n].arr[t]]
                eq = lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])
                zero = [z3.RealVal(0)] * len(pv)
                g = []
                if cond == "FixedValue":
                    g.append(("every face of the patch has the prescribed value", inpatch(lo, hi, t, z3.And(eq(at("value", t), pv), eq(at("ref", t), pv)))))
                    if space == VOL:
                        g.append(("the value fraction is one", inpatch(lo, hi, t, new["frac"].arr[t] == 1)))
                    else:
                        g.append(("the face values of the field are the prescribed value", inpatch(lo, hi, t, eq(at("int", M.nI + t), pv))))
                elif cond == "FixedGradient":
                    want = lambda t: [x + y * (1 / M.bdelta.arr[t]) for x, y in zip(cell(t), pv)]
                    g.append(("every face of the patch gets the cell value plus gradient times distance", inpatch(lo, hi, t, eq(at("value", t), want(t)))))
                    g.append(("the reference gradient is the prescribed one", inpatch(lo, hi, t, eq(at("grad", t), pv))))
                    g.append(("the value fraction is zero", inpatch(lo, hi, t, new["frac"].arr[t] == 0)))
                elif cond == "Extrapolated":
                    g.append(("every face of the patch has the value of its cell", inpatch(lo, hi, t, z3.And(eq(at("value", t), cell(t)), eq(at("ref", t), cell(t))))))
                    g.append(("the value fraction is one and the reference gradient zero", inpatch(lo, hi, t, z3.And(new["frac"].arr[t] == 1, eq(at("grad", t), zero)))))
                touched = cond in ("FixedValue", "FixedGradient", "Extrapolated")
                out = lambda n: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nB, z3.Or(t < lo, t >= hi) if touched else z3.BoolVal(True)), eq(at(n, t), comps(c, e, getattr(D, n).arr[t]) if n != "frac" else [D.frac.arr[t]])))
                for n, what in (("value", "values"), ("ref", "reference values"), ("frac", "value fractions"), ("grad", "reference gradients")):
                    g.append(("the %s of all other faces are unchanged" % what, z3.And(new[n].n == M.nB, out(n))))
                if cond == "FixedValue" and space == SURF:
                    g.append(("no other face value changes", z3.And(new["int"].n == M.nF, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nF, z3.Or(t < M.nI + lo, t >= M.nI + hi)), eq(at("int", t), comps(c, e, D.int.arr[t])))))))
                else:
                    g.append(("no value of the field itself changes", unchanged(c, s, D.int)))
                g.append(M.same(s))
                return g
            c.expect("%s, %s" % (cls, EXECS[k]), outs, ret, cover=("v",))
            if cond in ("FixedValue", "FixedGradient"):
                want = cond[0].lower() + cond[1:]
                ok = len(asked) == 1 and isinstance(asked[0][0], Path) and asked[0][0].same(dct)
                c.prove("%s, %s: one look-up in the condition's dictionary" % (cls, EXECS[k]), s, z3.BoolVal(ok))
                if ok:
                    c.prove("%s, %s: the parameter is called %s" % (cls, EXECS[k], want), s, asked[0][1] == c.S.lit(want) if z3.is_expr(asked[0][1]) else z3.BoolVal(False))
            # a copy behaves like the original
            outs = c.call(s, meth(c, cls, "clone", n=0), this, [])

            def cl(s2, v):
                q = c.X.load(s2, v)
                b = c.S.from_any(q, c.T(cls).strip())
                return [("a clone is an equal condition of the same class", z3.And(any_is(c, q, cls), c.X.deep_eq(c.X.load(s2, this), b)))]
            if k == 0:
                c.expect("%s::clone" % cls, outs, cl, cover=("v",))
    return f


def mixin(c):
    """the patch's place in the boundary data"""
    w = World(c, 0)
    M = MeshV(w, c.state())
    st, p, lo, hi = patch(c, M, M.st)
    a, b = z3.Ints("first last")
    n = 0
    forms = [(["const %s &" % MESH, "size_t"], [M.path, p], st, lo, hi), (["label", "label", "size_t"], [a, b, p], st.assume(z3.And(0 <= a, a <= b, b <= BIG)), a, b)]
    for tys, args, s0, x, y in forms:
        for o in c.new(s0, MIX, tys, args):
            s, this = o.st, o.v
            if o.k != "v":
                c.expect("BoundaryPatchMixin constructor", [o])
                continue
            if not isinstance(this, Path):
                s, this = c.put(s, this, "mixin%d" % n)
            n += 1
            for m, want in (("patchStart", x), ("patchEnd", y), ("patchSize", y - x), ("patchID", p)):
                c.expect("BoundaryPatchMixin %d: %s" % (len(tys), m), c.call(s, meth(c, MIX, m, n=0), this, []), lambda s, v, want=want: [("the patch's own", c.X.load(s, v) == want)], cover=("v",))

            def rng(s, v):
                q = c.X.load(s, v)
                fs = list(q.f.values())
                return [("from the first to one past the last face of the patch", z3.And(fs[0] == x, fs[1] == y))]
            c.expect("BoundaryPatchMixin %d: range" % len(tys), c.call(s, meth(c, MIX, "range", n=0), this, []), rng, cover=("v",))


def boundary(kind, ety):
    """VolumeBoundary / SurfaceBoundary: the condition the dictionary names, for its own patch, applied to the field it is given"""
    cls = CC + kind + "<%s>" % ety
    fac = CC + kind + "Factory<%s>" % ety

    def f(c):
        w = World(c, 0)
        M = MeshV(w, c.state())
        D = DomV(w, M.st, "VolumeField" if kind == "VolumeBoundary" else "SurfaceField", ety, "field", M)
        st, p, lo, hi = patch(c, M, D.st)
        tname = c.S.fresh(c.T("std::string"), "condition_name")
        st, dct, asked = dictionary(c, st, {"std::string": tname})
        strategy = c.S.fresh(c.T("std::unique_ptr<%s>" % fac), "strategy")
        made = []

        def create(X, d, s, this, args):
            made.append((X.load(s, args[0]), args[1:]))
            return [Out(s, "v", strategy)]
        key = [f["_qn"] for f in c.u.find_functions("NeoFOAM::RuntimeSelectionFactory<%s, NeoFOAM::Parameters<const NeoFOAM::UnstructuredMesh &, const NeoFOAM::Dictionary &, unsigned long>>::create" % fac)]
        c.X.contracts[key[0] if key else "NeoFOAM::RuntimeSelectionFactory::create"] = create
        calls = []

        def correct(X, md, s, obj, args):
            s = s.copy()
            s.store["applied"] = s.store.get("applied", ()) + ((obj.root, args[0]),)
            return [Out(s, "v", None)]

        def clone(X, md, s, obj, args):
            return [Out(s, "v", X.read(s, Path(obj.root, obj.steps[:-1])))]
        for q in (CC + kind + "Factory::", fac + "::"):
            c.X.abstract_impl[q + "correctBoundaryCondition"] = correct
            c.X.abstract_impl[q + "clone"] = clone
        ok = False
        for o in c.new(st, cls, ["const %s &" % MESH, "const NeoFOAM::Dictionary &", "size_t"], [M.path, dct, p]):
            if o.k != "v":
                c.expect("%s: constructor" % cls, [o])
                continue
            s, this = o.st, o.v
            if not isinstance(this, Path):
                s, this = c.put(s, this, "boundary")
            ok = len(made) == 1 and len(made[0][1]) == 3 and all(isinstance(q, Path) and q.same(r) for q, r in zip(made[0][1], (M.path, dct)))
            c.prove("%s: one condition is created, for the given mesh and dictionary" % cls, s, z3.BoolVal(ok))
            if ok:
                c.prove("%s: of the kind the dictionary names" % cls, s, z3.And(made[0][0] == tname, z3.BoolVal(len(asked) == 1), asked[0][1] == c.S.lit("type")))
                c.prove("%s: for the given patch" % cls, s, c.X.load(s, made[0][1][2]) == p)
            s0 = s
            objs = [("", s, this)]
            # copies share nothing but say the same
            for o2 in c.new(s, cls, ["const %s &" % cls], [this]):
                if o2.k == "v":
                    s2, t2 = o2.st, o2.v
                    if not isinstance(t2, Path):
                        s2, t2 = c.put(s2, t2, "boundary_copy")
                    objs.append((" (copy)", s2, t2))
            c.prove("%s: can be copied" % cls, s, z3.BoolVal(len(objs) == 2))
            for nm, s, obj in objs:
                for m, want in (("patchStart", lo), ("patchEnd", hi), ("patchSize", hi - lo), ("patchID", p)):
                    c.expect("%s%s: %s" % (cls, nm, m), c.call(s, meth(c, MIX, m, n=0), obj, []), lambda s, v, want=want: [("the patch's own", c.X.load(s, v) == want)], cover=("v",))

                def ret(s, _, obj=obj):
                    a = s.store.get("applied", ())
                    return [("its condition is applied once, to the field it is given", z3.BoolVal(len(a) == 1 and a[0][0] == obj.root and isinstance(a[0][1], Path) and a[0][1].same(D.path))),
                            ("nothing else changes", D.same(s))]
                c.expect("%s%s: correctBoundaryCondition" % (cls, nm), c.call(s, meth(c, cls, "correctBoundaryCondition", n=1), obj, [D.path]), ret, cover=("v",))
    return f


def whole(kind, ety):
    """correcting the boundary conditions of a field applies every one of its conditions once, to the field itself"""
    fcls = CC + kind + "<%s>" % ety
    bcls = CC + kind.replace("Field", "Boundary") + "<%s>" % ety

    def f(c):
        w = World(c, 0)
        M = MeshV(w, c.state())
        F = GeoV(w, M.st, kind, ety, "phi", M)
        st = F.st
        # ghost: how often condition i has been applied
        st = st.copy()
        st.store["ghost_applied"] = SeqV(c.T("int"), z3.Int("nbc"), z3.K(I, iv(0)))

        def correct(X, d, s, this, args):
            step = [x for x in this.steps if x[0] == "i"]
            q = args[0]
            if len(step) != 1 or not isinstance(q, Path) or q.root != "phi":
                raise Unsupported("a condition outside the field")
            b = s.store["ghost_applied"]
            s = s.copy()
            s.store["ghost_applied"] = SeqV(b.ety, b.n, z3.Store(b.arr, step[0][1], z3.Select(b.arr, step[0][1]) + 1))
            return [Out(s, "v", None)]
        c.X.contracts[CC + kind.replace("Field", "Boundary") + "::correctBoundaryCondition"] = correct
        vec = [n for n, t in c.S.fields(c.T(fcls)) if c.S.kind(t) == "seq" and bcls.split("::")[-1] in str(t)]
        outs = c.call(st, meth(c, fcls, "correctBoundaryConditions", n=0), F.path, [])

        def ret(s, _):
            t = z3.Int(fresh_name("t"))
            b = s.store["ghost_applied"]
            v = [x for n, x in c.X.read(s, F.path).f.items() if isinstance(x, SeqV)]
            return [("every condition of the field is applied exactly once", z3.And(z3.BoolVal(len(v) == 1), z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < v[0].n), b.arr[t] == 1)))),
                    ("the field is otherwise unchanged", F.same(s))]
        c.expect("%s::correctBoundaryConditions" % fcls, outs, ret, cover=("v",))
    return f


def create(fn, kind, ety):
    """one condition of the named kind per patch, in the order of the patches"""
    bcls = CC + kind + "<%s>" % ety
    word = {"createCalculatedBCs": "calculated", "createExtrapolatedBCs": "extrapolated"}[fn]

    def f(c):
        w = World(c, 0)
        M = MeshV(w, c.state())
        made = []
        mk = z3.Function("bc_for", I, c.S.sort(c.T(bcls)))

        def ctor(X, d, s, at, args):
            ps = X.u.params(d)
            if len(ps) != 3:
                return None
            dct = X.load(s, args[1])
            made.append((s, args[0], dct, X.load(s, args[2])))
            v = c.S.unpack(mk(X.load(s, args[2])), c.T(bcls).strip())
            if at is not None:
                s = X.write(s, at, v)
                s = s if isinstance(s, State) else s
                return [Out(s, "v", at)]
            return [Out(s, "v", v)]
        c.X.contracts[bcls + "::" + kind] = ctor
        c.X.contracts[CC + kind + "::" + kind] = ctor
        ds = [d for d in c.u.find_functions(CC + fn) if ("%s<%s>" % (kind, "scalar" if ety == "double" else ety)) in d["type"]["qualType"] or str(c.T("std::vector<%s>" % bcls)) == str(c.u.types.parse(d["type"]["qualType"].split("(")[0].strip()))]
        if len(ds) != 1:
            raise Unsupported("%d functions %s" % (len(ds), fn))
        outs = c.call(M.st, ds[0], None, [M.path])

        def ret(s, v):
            q = c.X.load(s, v)
            t = z3.Int(fresh_name("t"))
            g = [("one condition per patch, each for its own patch", z3.And(q.n == M.nP, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < M.nP), q.arr[t] == mk(t)))))]
            return g
        c.expect("%s<%s>" % (fn, bcls), outs, ret, cover=("v",))
        for s, m, dct, p in made:
            ok = isinstance(m, Path) and m.same(M.path)
            key = c.S.lit("type")
            mv = mp(c, dct) if not isinstance(dct, MapV) else dct
            c.prove("%s<%s>: for this mesh" % (fn, bcls), s, z3.BoolVal(ok))
            c.prove("%s<%s>: of the kind %s" % (fn, bcls, word), s, z3.And(mv.dom[key], mv.val[key] == c.S.to_any(c.S.lit(word), c.T("std::string").strip())))
    return f


CONTRACTS = [("patch range", mixin)]
for ety in ETYS:
    for kind in ("VolumeBoundary", "SurfaceBoundary"):
        CONTRACTS.append(("%s<%s>" % (kind, ety), boundary(kind, ety)))
        CONTRACTS.append(("all conditions of a %s<%s>" % (kind.replace("Boundary", "Field"), ety), whole(kind.replace("Boundary", "Field"), ety)))
        for fn in ("createCalculatedBCs", "createExtrapolatedBCs"):
            if not (kind == "SurfaceBoundary" and fn == "createExtrapolatedBCs"):
                CONTRACTS.append(("%s %s<%s>" % (fn, kind, ety), create(fn, kind, ety)))
for ety in ETYS:
    for k in range(3):
        for space, conds in ((VOL, ("FixedValue", "FixedGradient", "Extrapolated", "Calculated", "Empty")), (SURF, ("FixedValue", "Calculated", "Empty"))):
            for cond in conds:
                CONTRACTS.append(("%s %s<%s> %s" % (space, cond, ety, EXECS[k]), condition(cond, space, ety, k)))
