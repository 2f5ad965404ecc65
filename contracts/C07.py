"""C07: runtime selection constructs exactly the class registered under the key."""
from .common import *
from cxv.units import FACTORY

UNIT = FACTORY
F, R, N = "NeoFOAM::RuntimeSelectionFactory", "NeoFOAM::RegisterDocumentation", "NeoFOAM::cxv"
DOCT = "NeoFOAM::BaseClassDocumentation"
OOR = "std::out_of_range"


class Fac:
    """one factory instantiation: its functions, its two tables in an arbitrary state"""

    def __init__(self, c, base):
        self.c, self.base = c, base
        st = c.state()
        for q, t in (("table", "tab"), ("docTable", "dtab")):
            (o,) = c.call(st, self.fn(q))
            st = o.st
            setattr(self, t, o.v)
        self.st = st
        self.m, self.d = mp(c, c.X.read(st, self.tab)), mp(c, c.X.read(st, self.dtab))
        if self.tab.root == self.dtab.root:
            raise Unsupported("both tables share one object")
        c.X.contracts["std::function"] = self.fncall

    def fn(self, nm):
        return self.c.fn(F + "::" + nm, which=lambda f: self.isbase(f["_class"]))

    def isbase(self, cls):
        return cls is not None and cls.get("_targs") and str(self.c.u.types.parse(cls["_targs"][0])) == N + "::" + self.base

    def fncall(self, X, f, st, this, args):
        """a stored creator or text function: arbitrary result, the call itself is recorded"""
        vs = [X.load(st, a) for a in args]
        ps = [a if isinstance(a, Path) else None for a in args]
        n = len([e for e in st.log if e[0] == "fncall"])
        if f.sort().eq(Fn) and self.kind == "str":
            r = X.S.ufun("text%d" % len(args), [f] + [X.S.pack(v, None) for v in vs], Str)
        else:
            r = z3.Const("made%d" % n, AnyS)
        return [Out(st.event(("fncall", f, vs, ps, r)), "v", r)]

    kind = "any"

    def unchanged(self, s):
        c = self.c
        return z3.And(c.same_map(mp(c, c.X.read(s, self.tab)), self.m), c.same_map(mp(c, c.X.read(s, self.dtab)), self.d))

    def args(self, st):
        c = self.c
        if self.base == "GBase":
            return st, [], []
        st, ps, s = string(c, st, "arg_s")
        n = c.S.fresh(c.T("long"), "arg_n")
        st, pt, t = c.obj(st, N + "::Thing", "arg_t")
        st, pv, v = c.obj(st, N + "::Thing", "arg_v")
        return st, [ps, n, pt, pv], [s, n, t, v]


def texts(c, st, d):
    """name(), doc(), schema() of a class: whatever they return"""
    r = []
    for q in ("name", "doc", "schema"):
        (o,) = c.call(st, c.fn("%s::%s::%s" % (N, d, q)))
        st = o.st
        r.append(c.X.load(st, o.v))
    return st, r


def add(base, d):
    def f(c):
        fa = Fac(c, base)
        st, (nm, doc, sch) = texts(c, fa.st, d)
        reg = c.fn(F + "::Register::addSubType", which=lambda g: str(c.u.types.parse(g["_class"]["_targs"][0])) == N + "::" + d)

        def ret(s, r):
            m, dm = mp(c, c.X.read(s, fa.tab)), mp(c, c.X.read(s, fa.dtab))
            g = [("reports success", r),
                 ("the class is creatable under its own name and no other entry changes", eqmap(m, lambda k: z3.Or(fa.m.dom[k], k == nm), lambda k: z3.If(k == nm, m.val[nm], fa.m.val[k]))),
                 ("its documentation is found under its own name and no other entry changes", eqmap(dm, lambda k: z3.Or(fa.d.dom[k], k == nm), lambda k: z3.If(k == nm, dm.val[nm], fa.d.val[k])))]
            # what the stored creator does
            cr = c.S.unpack(simp(z3.Select(m.val, nm)), m.vty)
            fa.kind = "any"
            s2, args, vals = fa.args(s)
            for o in c.X.call_value(s2, cr, args):
                if o.k != "v":
                    g.append(("the creator returns", z3.BoolVal(False)))
                    continue
                T = c.T(N + "::" + d)
                a = o.v if not isinstance(o.v, Path) else c.X.read(o.st, o.v)
                g.append(("the creator makes exactly this class", any_is(c, a, N + "::" + d)))
                x = c.S.from_any(a, T)
                if base == "FBase":
                    g += [("... from exactly the given string", x.f["s"] == vals[0]), ("... the given number", x.f["n"] == vals[1]),
                          ("... the given object itself (by reference)", z3.BoolVal(isinstance(x.f["t"], Path) and x.f["t"].same(args[2]))),
                          ("... the given value", c.same(x.f["v"], vals[3])), ("... whose arguments stay as they were", z3.And(c.same(c.X.read(o.st, args[2]), vals[2]), c.X.read(o.st, args[0]) == vals[0]))]
                else:
                    g.append(("... by its constructor", x.f["n"] == 4711))
                g.append(("creating changes no table", z3.And(c.same_map(mp(c, c.X.read(o.st, fa.tab)), m), c.same_map(mp(c, c.X.read(o.st, fa.dtab)), dm))))
            e = c.S.unpack(simp(z3.Select(dm.val, nm)), dm.vty)
            fa.kind = "str"
            for fld, want in zip(list(e.f), (doc, sch)):
                for o in c.X.call_value(s, e.f[fld], []):
                    g.append(("the stored %s is that of the class" % fld, c.X.load(o.st, o.v) == want if o.k == "v" else z3.BoolVal(False)))
            return g
        c.expect("Register<%s>::addSubType" % d, c.call(st, reg), ret, cover=("v",))
    return f


def create(base):
    def f(c):
        fa = Fac(c, base)
        st, pk, key = string(c, fa.st, "key")
        st, args, vals = fa.args(st)

        def ret(s, r):
            ev = [e for e in s.log if e[0] == "fncall"]
            ok = len(ev) == 1 and not [e for e in s.log if e[0] == "loop"]
            g = [("only for registered keys", fa.m.dom[key]), ("exactly one creator runs, once", z3.BoolVal(ok)), ("the tables stay as they were", fa.unchanged(s))]
            if ok:
                _, fn, vs, ps, res = ev[0]
                g += [("it is the one stored under the key", fn == fa.m.val[key]), ("its object is returned", (c.X.load(s, r) if isinstance(r, Path) else r) == res),
                      ("it gets as many arguments", z3.BoolVal(len(vs) == len(vals)))]
                g += [("argument %d is passed on exactly" % i, c.same(a, b)) for i, (a, b) in enumerate(zip(vs, vals))]
                if base == "FBase" and len(ps) == 4:
                    g.append(("the reference argument is the caller's object", z3.BoolVal(ps[2] is not None and ps[2].same(args[2]))))
                    g.append(("the caller's arguments stay as they were", z3.And(*[c.same(c.X.read(s, a), v) for a, v in ((args[0], vals[0]), (args[2], vals[2]), (args[3], vals[3]))])))
            return g

        def bad(s, *x):
            return [("ends with an error only for an unregistered key", z3.Not(fa.m.dom[key])), ("no creator has run", z3.BoolVal(not [e for e in s.log if e[0] in ("fncall",)]))]
        outs = c.call(st, fa.fn("create"), None, [pk] + args)
        c.expect("create<%s>" % base, outs, ret, lambda s, e, x: bad(s), lambda s, code: bad(s) + [("the exit status reports an error", code != 0)], cover=("v",))
        c.record("create<%s>: an unregistered key ends with an error (reachable)" % base, "discharged" if any(o.k in ("thr", "exit") and c.sat(o.st) for o in outs) else "failed", "z3", 0)
    return f


def listing(c, fa, q, what=""):
    t, u = z3.Ints("t u")
    k = z3.Const("kk", Str)
    return [(what + "every listed name is registered", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < q.n), fa.m.dom[q.arr[t]]))),
            (what + "no name is listed twice", z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t < u, u < q.n), q.arr[t] != q.arr[u]))),
            (what + "every registered name is listed", z3.ForAll([k], z3.Implies(fa.m.dom[k], z3.Exists([t], z3.And(0 <= t, t < q.n, q.arr[t] == k))))),
            (what + "the number of names is the table's size", q.n == c.S.card(fa.m.dom))]


def keycheck(base):
    """listing of the keys: each exactly once, in any order"""
    def f(c):
        fa = Fac(c, base)

        def ret(s, r):
            return listing(c, fa, c.X.load(s, r)) + [("changes nothing", fa.unchanged(s))]
        c.expect("entries<%s>" % base, c.call(fa.st, fa.fn("entries")), ret, cover=("v",))
        c.expect("size<%s>" % base, c.call(fa.st, fa.fn("size")), lambda s, r: [("is the number of registered names", r == c.S.card(fa.m.dom)), ("changes nothing", fa.unchanged(s))], cover=("v",))
    return f


def look(base, which):
    def f(c):
        fa = Fac(c, base)
        fa.kind = "str"
        st, pk, key = string(c, fa.st, "key")
        e = c.S.unpack(z3.Select(fa.d.val, key), fa.d.vty)
        fld = list(e.f)[0 if which == "doc" else 1]
        want = c.S.ufun("text0", [e.f[fld]], Str)

        def ret(s, r):
            return [("only for registered classes", fa.d.dom[key]), ("is the text of the named class", c.X.load(s, r) == want), ("changes nothing", fa.unchanged(s))]
        c.expect("%s<%s>" % (which, base), c.call(st, fa.fn(which), None, [pk]), ret,
                 lambda s, t, x: [("raises out_of_range exactly for an unregistered class", z3.And(z3.Not(fa.d.dom[key]), z3.BoolVal(t == OOR))), ("changes nothing", fa.unchanged(s))], cover=("v", "thr"))
    return f


def dtor(base, d):
    def f(c):
        fa = Fac(c, base)
        st, p, v = c.obj(fa.st, N + "::" + d, "self")
        g = [x for x in c.u.functions.get(F + "::Register::~Register", ()) if c.u.definition(x) is not None and not c.u.is_dependent(x) and str(c.u.types.parse(x["_class"]["_targs"][0])) == N + "::" + d]
        if not g:
            raise Unsupported("no destructor")
        c.expect("Register<%s>::~Register" % d, c.call(st, c.u.definition(g[0]), p, []), lambda s, r: [("changes no table", fa.unchanged(s))], cover=("v",))
    return f


def registered(base, d):
    """the static initialiser registers the class"""
    def f(c):
        fa = Fac(c, base)
        reg = c.fn(F + "::Register::addSubType", which=lambda g: str(c.u.types.parse(g["_class"]["_targs"][0])) == N + "::" + d)
        n = [x for x in c.u.byid.values() if x.get("kind") == "VarDecl" and x.get("name") == "REGISTERED" and c.X.var_init(x) is not None
             and N in str(c.u.types) * 0 + str((x.get("_parent") or {}).get("_targs") or "")]
        hits = []
        c.X.contracts[reg["_qn"]] = lambda X, g, st, this, args: [Out(st.event(("registered", str(c.u.types.parse(g["_class"]["_targs"][0])))), "v", z3.BoolVal(True))]
        for x in c.u.byid.values():
            if x.get("kind") == "VarDecl" and x.get("name") == "REGISTERED" and c.X.var_init(x) is not None:
                try:
                    outs = c.X.ev(c.X.var_init(x), fa.st)
                except (Unsupported, KeyError):
                    continue
                hits += [e[1] for o in outs for e in o.st.log if e[0] == "registered"]
        if not hits:
            raise Unsupported("the initialiser of the instantiated static member is not in the dump")
        c.record("Register<%s>::REGISTERED: initialised by registering the class itself" % d, "discharged" if N + "::" + d in hits else "failed", "symbolic execution", 0, str(hits))
    return f


# --- documentation of base classes
def bdoc(c):
    st = c.state()
    (o,) = c.call(st, c.fn(DOCT + "::docTable"))
    return o.st, o.v, mp(c, c.X.read(o.st, o.v))


def bcall(c):
    def h(X, f, st, this, args):
        vs = [X.load(st, a) for a in args]
        if not vs:
            r = z3.Function("entrylist", Fn, c.S.sort(c.T("std::vector<std::string>")))(f)
            return [Out(st, "v", c.S.unpack(r, c.T("std::vector<std::string>")))]
        return [Out(st, "v", X.S.ufun("text1", [f] + vs, Str))]
    c.X.contracts["std::function"] = h


def register(c):
    st, p, m = bdoc(c)
    st, pn, nm = string(c, st, "name")
    st, pd, d = c.obj(st, "NeoFOAM::BaseClassData", "data")

    def ret(s, r):
        n = mp(c, c.X.read(s, p))
        return [("the data are stored under the name, nothing else changes", eqmap(n, lambda k: z3.Or(m.dom[k], k == nm), lambda k: z3.If(k == nm, c.S.pack(d, m.vty), m.val[k])))]
    c.expect("BaseClassDocumentation::registerClass", c.call(st, c.fn(DOCT + "::registerClass"), None, [pn, pd]), ret, cover=("v",))


def blook(which):
    def f(c):
        bcall(c)
        st, p, m = bdoc(c)
        st, pb, b = string(c, st, "base")
        st, pk, k = string(c, st, "derived")
        e = c.S.unpack(z3.Select(m.val, b), m.vty)
        i = ("doc", "schema", "entries").index(which)
        fn = e.f[list(e.f)[i]]

        def ret(s, r):
            v = c.X.load(s, r)
            if which == "entries":
                w = c.S.unpack(z3.Function("entrylist", Fn, c.S.sort(c.T("std::vector<std::string>")))(fn), c.T("std::vector<std::string>"))
                q = c.same_seq(v, w)
            else:
                q = v == c.S.ufun("text1", [fn, k], Str)
            return [("only for registered base classes", m.dom[b]), ("asks exactly the named base class for exactly the named class", q), ("changes nothing", c.same_map(mp(c, c.X.read(s, p)), m))]
        args = [pb] if which == "entries" else [pb, pk]
        c.expect("BaseClassDocumentation::%s" % which, c.call(st, c.fn(DOCT + "::" + which), None, args), ret,
                 lambda s, t, x: [("raises out_of_range exactly for an unknown base class", z3.And(z3.Not(m.dom[b]), z3.BoolVal(t == OOR)))], cover=("v", "thr"))
    return f


def init(base):
    def f(c):
        fa = Fac(c, base)
        fa.kind = "str"
        st = fa.st
        (o,) = c.call(st, c.fn(DOCT + "::docTable"))
        st, p = o.st, o.v
        m = mp(c, c.X.read(st, p))
        (o,) = c.call(st, c.fn("%s::%s::name" % (N, base)))
        st, nm = o.st, c.X.load(o.st, o.v)
        ini = c.fn(R + "::init", which=lambda g: fa.isbase(g["_class"]))

        def ret(s, r):
            n = mp(c, c.X.read(s, p))
            g = [("reports success", r), ("stored under the base class's name, nothing else changes", eqmap(n, lambda k: z3.Or(m.dom[k], k == nm), lambda k: z3.If(k == nm, n.val[nm], m.val[k])))]
            e = c.S.unpack(simp(z3.Select(n.val, nm)), m.vty)
            s2, pk, key = string(c, s, "key")
            de = c.S.unpack(z3.Select(fa.d.val, key), fa.d.vty)
            for i, fld in enumerate(list(e.f)[:2]):
                for o in c.X.call_value(s2.assume(fa.d.dom[key]), e.f[fld], [pk]):
                    if o.k == "v":
                        g.append(("the stored %s function returns the text of the named class" % fld, z3.Implies(fa.d.dom[key], c.X.load(o.st, o.v) == c.S.ufun("text0", [de.f[list(de.f)[i]]], Str))))
            for o in c.X.call_value(s, e.f[list(e.f)[2]], []):
                g += listing(c, fa, c.X.load(o.st, o.v), "the stored entries function: ")
            return g
        c.expect("RegisterDocumentation<%s>::init" % base, c.call(st, ini), ret, cover=("v",))
    return f


CONTRACTS = ([("Register<%s>::addSubType" % d, add(b, d)) for b, d in (("FBase", "D1"), ("FBase", "D2"), ("GBase", "G1"))]
             + [("create<%s>" % b, create(b)) for b in ("FBase", "GBase")] + [("entries/size<%s>" % b, keycheck(b)) for b in ("FBase", "GBase")]
             + [("%s<%s>" % (w, b), look(b, w)) for w in ("doc", "schema") for b in ("FBase", "GBase")]
             + [("~Register<%s>" % d, dtor(b, d)) for b, d in (("FBase", "D1"), ("GBase", "G1"))]
             + [("REGISTERED<%s>" % d, registered(b, d)) for b, d in (("FBase", "D1"), ("FBase", "D2"), ("GBase", "G1"))]
             + [("BaseClassDocumentation::registerClass", register)] + [("BaseClassDocumentation::" + w, blook(w)) for w in ("doc", "schema", "entries")]
             + [("RegisterDocumentation<%s>::init" % b, init(b)) for b in ("FBase", "GBase")])
