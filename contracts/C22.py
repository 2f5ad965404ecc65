"""C22: vector arithmetic is exact per component."""
from .common import *
from .fields import comps
from cxv.units import VEC

UNIT = VEC
V = "NeoFOAM::Vector"


def vec(c, st, name):
    v = c.S.fresh(c.T(V), name)
    st, p = c.put(st, v, name)
    return st, p, comps(c, c.T(V), c.S.pack(v, c.T(V)))


def cs(c, s, v):
    return comps(c, c.T(V), c.S.pack(c.X.load(s, v), c.T(V)))


def eq(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def fn(c, name, *tys, member=True):
    want = [str(c.T(t)) for t in tys]
    if member:
        fs = [m for m in c.u.methods(c.u.find_class(c.T(V))) if m.get("name") == name]
    else:
        fs = c.u.find_functions("NeoFOAM::" + name)
    fs = [f for f in fs if [str(c.u.ty(p).strip()) for p in c.u.params(f)] == [str(c.T(t).strip()) for t in tys]]
    return fs


def ctor(kind):
    def f(c):
        st = c.state()
        x, y, z = z3.Reals("x y z")
        if kind == "default":
            outs, want = c.new(st, V, [], []), [0, 0, 0]
        elif kind == "three":
            outs, want = c.new(st, V, ["double"] * 3, [x, y, z]), [x, y, z]
        elif kind == "const":
            outs, want = c.new(st, V, ["const double"], [x]), [x, x, x]
        else:
            st, p, a = vec(c, st, "a")
            outs, want = c.new(st, V, ["const %s &" % V], [p]), a
        c.expect("constructor " + kind, outs, lambda s, v: [("components", eq(cs(c, s, v), want))], cover=("v",))
    return f


def one(fs, what):
    if len(fs) != 1:
        raise Unsupported("%d functions %s" % (len(fs), what))
    return fs[0]


OP = {"+": lambda x, y: x + y, "-": lambda x, y: x - y}


def binop(op, alias):
    def f(c):
        st, p, a = vec(c, c.state(), "a")
        q, b = p, a
        if not alias:
            st, q, b = vec(c, st, "b")
        r = one(fn(c, "operator" + op, V), op)
        outs = c.call(st, r, p, [q])
        want = [OP[op](x, y) for x, y in zip(a, b)]
        c.expect("operator%s%s" % (op, " with itself" if alias else ""), outs, lambda s, v: [("each component", eq(cs(c, s, v), want)), ("operands unchanged", z3.And(eq(cs(c, s, p), a), eq(cs(c, s, q), b)))], cover=("v",))
    return f


def compound(op, alias):
    def f(c):
        st, p, a = vec(c, c.state(), "a")
        q, b = p, a
        if not alias:
            st, q, b = vec(c, st, "b")
        outs = c.call(st, one(fn(c, "operator" + op + "=", V), op), p, [q])
        want = [OP[op](x, y) for x, y in zip(a, b)]

        def ret(s, r):
            return [("the target takes the value of the binary operation", eq(cs(c, s, p), want)), ("returns the target", z3.BoolVal(isinstance(r, Path) and r.same(p)))] + ([] if alias else [("the operand is unchanged", eq(cs(c, s, q), b))])
        c.expect("operator%s=%s" % (op, " with itself" if alias else ""), outs, ret, cover=("v",))
    return f


def ref(c, p, i):
    return p + ("f", [n for n, t in c.S.fields(c.T(V))][0]) + ("i", iv(i))


def scaling(how, alias=None):
    def f(c):
        st, p, a = vec(c, c.state(), "a")
        x = z3.Int("x") if how == "label" else z3.Real("x")
        if how == "label":
            c.S.fact(z3.And(x >= -2 ** 31, x < 2 ** 31))
        if alias is not None:
            px, x = ref(c, p, alias), a[alias]
        else:
            st, px = c.put(st, x, "x")
        want = [v * x for v in a]
        if how == "compound":
            outs = c.call(st, one(fn(c, "operator*=", "double"), "*="), p, [px])
            c.expect("operator*=%s" % (" by its own component %d" % alias if alias is not None else ""), outs,
                     lambda s, r: [("every component is multiplied by the factor handed over", eq(cs(c, s, p), want)), ("returns the target", z3.BoolVal(isinstance(r, Path) and r.same(p)))], cover=("v",))
            return
        if how == "left":
            d = [g for g in fn(c, "operator*", "double", V, member=False)]
            outs = c.call(st, one(d, "scalar * vector"), None, [px, c.X.read(st, p)])
        else:
            outs = c.call(st, one(fn(c, "operator*", "int" if how == "label" else "double"), "*"), p, [px])
        c.expect("scaling %s%s" % (how, "" if alias is None else " by its own component"), outs, lambda s, r: [("every component is multiplied", eq(cs(c, s, r), want)), ("the operand is unchanged", eq(cs(c, s, p), a))], cover=("v",))
    return f


def access(const, name):
    def f(c):
        st, p, a = vec(c, c.state(), "a")
        ms = [m for m in fn(c, name, "unsigned long") if c.u.is_const(m) == const]
        for i in range(3):
            outs = c.call(st, one(ms, name), p, [iv(i)])
            c.expect("%s%s %d" % (name, " const" if const else "", i), outs, lambda s, r: [("the value of that component", c.X.load(s, r) == a[i])], cover=("v",))
            if not const:
                for o in outs:
                    if o.k == "v" and isinstance(o.v, Path):
                        x = z3.Real("x")
                        s2 = c.X.write(o.st, o.v, x)
                        c.prove("%s %d: writing through it sets that component only" % (name, i), s2, eq(cs(c, s2, p), [x if j == i else a[j] for j in range(3)]))
                    else:
                        c.prove("%s %d: gives access to the component" % (name, i), o.st, z3.BoolVal(False))
    return f


def pointer(const):
    def f(c):
        st, p, a = vec(c, c.state(), "a")
        ms = [m for m in fn(c, "data") if c.u.is_const(m) == const]
        outs = c.call(st, one(ms, "data"), p, [])

        def ret(s, r):
            b = Path(r.root, r.steps[:-1]) if r.steps and r.steps[-1][0] == "i" else r
            o = r.steps[-1][1] if r.steps and r.steps[-1][0] == "i" else iv(0)
            return [("component %d is at position %d" % (i, i), c.X.read(s, b + ("i", simp(o + i))) == a[i]) for i in range(3)]
        c.expect("data()", outs, ret, cover=("v",))
        outs = c.call(st, one(fn(c, "size"), "size"), p, [])
        c.expect("size()", outs, lambda s, r: [("three", r == 3)], cover=("v",))
    return f


def compare(alias):
    def f(c):
        st, p, a = vec(c, c.state(), "a")
        q, b = p, a
        if not alias:
            st, q, b = vec(c, st, "b")
        outs = c.call(st, one(fn(c, "operator==", V), "=="), p, [q])
        c.expect("operator==%s" % (" with itself" if alias else ""), outs, lambda s, r: [("equal exactly when all components are", c.X.boolv(r) == eq(a, b))], cover=("v",))
    return f


def inner(c):
    st, p, a = vec(c, c.state(), "a")
    st, q, b = vec(c, st, "b")
    outs = c.call(st, one(fn(c, "operator&", V, V, member=False), "&"), None, [p, c.X.read(st, q)])
    c.expect("inner product", outs, lambda s, r: [("sum of the products of the components", r == a[0] * b[0] + a[1] * b[1] + a[2] * b[2])], cover=("v",))


def magnitude(c):
    st, p, a = vec(c, c.state(), "a")
    outs = c.call(st, one(fn(c, "mag", V, member=False), "mag"), None, [p])
    dot = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
    c.expect("mag(Vector)", outs, lambda s, r: [("the square root of the inner product with itself", r == z3.Function("sqrt", R, R)(dot))], cover=("v",))
    x = z3.Real("x")
    st, px = c.put(c.state(), x, "x")
    outs = c.call(st, one(fn(c, "mag", "double", member=False), "mag"), None, [px])
    c.expect("mag(scalar)", outs, lambda s, r: [("the absolute value", r == z3.If(x >= 0, x, -x))], cover=("v",))


def units(c):
    for nm, v in (("one", 1), ("zero", 0)):
        for t in ("double", V, "unsigned int"):
            fs = [f for f in c.u.find_functions("NeoFOAM::" + nm) if str(c.T(f["type"]["qualType"].split("(")[0].strip()).strip()) == str(c.T(t).strip()) and c.u.definition(f) is not None]
            ds = {(c.u.definition(f) or f)["id"]: f for f in fs}
            outs = c.call(c.state(), one(list(ds.values()), "%s<%s>" % (nm, t)), None, [])
            c.expect("%s<%s>" % (nm, t), outs, lambda s, r: [("every component is %d" % v, eq(cs(c, s, r), [v] * 3) if t == V else c.X.load(s, r) == v)], cover=("v",))


CONTRACTS = [("constructor " + k, ctor(k)) for k in ("default", "three", "const", "copy")]
for al in (False, True):
    for op in "+-":
        CONTRACTS += [("operator%s %s" % (op, al), binop(op, al)), ("operator%s= %s" % (op, al), compound(op, al))]
    CONTRACTS.append(("operator== %s" % al, compare(al)))
for how in ("scalar", "label", "left", "compound"):
    CONTRACTS.append(("scaling " + how, scaling(how)))
    if how in ("scalar", "left", "compound"):
        CONTRACTS += [("scaling %s by own component %d" % (how, i), scaling(how, i)) for i in range(3)]
for const in (False, True):
    CONTRACTS += [("%s %s" % (n, const), access(const, n)) for n in ("operator[]", "operator()")]
    CONTRACTS.append(("data %s" % const, pointer(const)))
CONTRACTS += [("inner product", inner), ("magnitude", magnitude), ("one and zero", units)]
