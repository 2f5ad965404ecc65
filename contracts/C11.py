"""C11: field algebra is exact element by element and touches nothing else."""
from .common import *
from .fields import *
from cxv.units import FIELD

UNIT = FIELD
TYPES = ["double", "NeoFOAM::Vector", "unsigned int", "int"]


def fnf(c, name, ety, more=None):
    """the instantiation of a free function template whose first parameter is a field of ety"""
    want = str(c.T("NeoFOAM::Field<%s>" % ety).strip())
    cs = [f for f in c.u.find_functions("NeoFOAM::" + name) if c.u.params(f) and str(c.u.ty(c.u.params(f)[0]).strip()) == want and (more is None or more(f))]
    if len(cs) != 1:
        raise Unsupported("%d functions %s<%s>" % (len(cs), name, ety))
    return cs[0]


def ranged(name, ety, k, kind):
    """fill, setField and map: the range takes the value / the view's elements / the function's values"""
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        e = c.T(ety)
        if name == "fill":
            arg, vc = elemval(c, st, ety, "value")
            new, need = (lambda t: vc), None
        elif name == "setField":
            st, arg, n, arr = view(c, st, ety, "src")
            new, need = (lambda t: comps(c, e, arr[t])), n
        else:
            st, arg, n, arr = view(c, st, ety, "tab")
            arg = St(c.T("NeoFOAM::cxv::Inner<%s>" % ety), {"table": Path("tab_data", (("i", iv(0)),))})
            new, need = (lambda t: comps(c, e, arr[t])), n
        d = fnf(c, name, ety)
        st, r, b, en = whole_or_range(c, st, d, kind, a.n)
        if need is not None:
            st = st.assume(need >= (a.n if b is None else en))
        outs = c.call(st, d, None, [a.path, arg] + r)
        old = lambda t: comps(c, e, a.arr[t])

        def ret(s, _):
            w = new if b is None else lambda t: [z3.If(z3.And(b <= t, t < en), x, y) for x, y in zip(new(t), old(t))]
            return [("exactly the elements of the range take the value", elements(c, s, a, w))] + others(c, s, o)
        c.expect("%s<%s> %s %s" % (name, ety, kind, EXECS[k]), outs, ret, cover=("v",))
    return f


def whole_or_range(c, st, d, kind, n):
    """[range argument]; 'whole' leaves it out (the caller's default applies)"""
    if kind == "whole":
        st, v = c.X.default_arg(st, d, len(c.u.params(d)) - 1)
        return st, [v], None, None
    b, e = z3.Ints("rb re")
    c.S.fact(z3.And(b >= 0, e >= 0))
    return st.assume(z3.And(b <= e, e <= n)), [St(c.T("std::pair<size_t, size_t>"), {"first": b, "second": e})], b, e


def num_op(c, ety, op):
    """the element operation, componentwise; unsigned differences wrap"""
    t = c.T("double") if ety == "NeoFOAM::Vector" else c.T(ety)
    return lambda xs, ys: [c.X.wrap(op(x, y), t) for x, y in zip(xs, ys)]


OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}
SYMS = {"+=": "add", "-=": "sub", "*=": "mul", "+": "add", "-": "sub", "*": "mul"}


def binary(name, ety, k, alias, member=False):
    """add/sub/mul and the compound assignments: a := a op b elementwise, b unchanged"""
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        if alias:
            b = a
        else:
            st, b = mkfield(c, st, ety, "b", k)
            st = st.assume(a.n == b.n)
        st, o = mkfield(c, st, ety, "o", k)
        e = c.T(ety)
        op = num_op(c, ety, OPS[SYMS.get(name, name)])
        if member:
            ft = "NeoFOAM::Field<%s>" % ety
            outs = c.call(st, meth(c, "NeoFOAM::Field<%s>" % ety, "operator" + name, 0, ft), a.path, [b.path])
        else:
            outs = c.call(st, fnf(c, name, ety), None, [a.path, b.path])

        def ret(s, r):
            g = [("every element is the operation of both operands' elements", elements(c, s, a, lambda t: op(comps(c, e, a.arr[t]), comps(c, e, b.arr[t]))))]
            if member:
                g.append(("returns the target", z3.BoolVal(isinstance(r, Path) and r.same(a.path))))
            return g + others(c, s, *([o] if alias else [b, o]))
        c.expect("%s<%s>%s %s" % (name, ety, " (operand is the target)" if alias else "", EXECS[k]), outs, ret, cover=("v",))
    return f


def mismatch(name, ety, k):
    """operands of different length are rejected and left alone"""
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, b = mkfield(c, st, ety, "b", k)
        st = st.assume(a.n != b.n)
        outs = c.call(st, fnf(c, name, ety), None, [a.path, b.path])
        c.expect("%s<%s> of different lengths %s" % (name, ety, EXECS[k]), outs, None,
                 lambda s, t, v: [("reports the mismatch", z3.BoolVal("DimensionMismatch" in t)), ("changes nothing", z3.And(unchanged(c, s, a), unchanged(c, s, b)))], cover=("thr",))
    return f


def scale(ety, k, how):
    """scalarMul, operator*=(scalar), operator*(scalar)"""
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        e = c.T(ety)
        x = c.S.fresh(c.T("double"), "factor")
        w = lambda t: [q * x for q in comps(c, e, a.arr[t])]
        if how == "scalarMul":
            outs = c.call(st, fnf(c, "scalarMul", ety), None, [a.path, x])
        else:
            outs = c.call(st, meth(c, "NeoFOAM::Field<%s>" % ety, "operator" + how, 0, "double"), a.path, [x])

        def ret(s, r):
            if how == "*":
                return [("every element of the result is scaled", elements(c, s, r, w, a.n, e)), ("the result lives on the same executor", execof(c, s, r) == k)] + others(c, s, a, o)
            return [("every element is scaled", elements(c, s, a, w))] + others(c, s, o)
        c.expect("%s scalar <%s> %s" % (how, ety, EXECS[k]), outs, ret, cover=("v",))
    return f


def prodfield(k, alias):
    """Field<scalar> * Field<scalar>"""
    return value_op("*", "double", k, alias, True)


def value_op(op, ety, k, alias, member=False):
    """binary operators returning a new field"""
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        if alias:
            b = a
        else:
            st, b = mkfield(c, st, ety, "b", k)
            st = st.assume(a.n == b.n)
        e = c.T(ety)
        fop = num_op(c, ety, OPS[SYMS[op]])
        ft = "NeoFOAM::Field<%s>" % ety
        if member:
            outs = c.call(st, meth(c, "NeoFOAM::Field<%s>" % ety, "operator" + op, 0, ft), a.path, [b.path])
        else:
            # the left operand is taken by value: the caller hands over a copy
            outs = []
            for o in c.new(st, ft, ["const %s &" % ft], [a.path]):
                outs += c.call(o.st, fnf(c, "operator" + op, ety, par(c, 1, ft)), None, [o.v, b.path])

        def ret(s, r):
            return [("every element of the result is the operation of both operands' elements", elements(c, s, r, lambda t: fop(comps(c, e, a.arr[t]), comps(c, e, b.arr[t])), a.n, e)),
                    ("the result lives on the same executor", execof(c, s, r) == k)] + others(c, s, *([a] if alias else [a, b]))
        c.expect("%s <%s>%s %s" % (op, ety, " (both operands the same field)" if alias else "", EXECS[k]), outs, ret, cover=("v",))
    return f


def assign_value(ety, k):
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        v, vc = elemval(c, st, ety, "value")
        st, p = c.put(st, v, "value")
        outs = c.call(st, meth(c, "NeoFOAM::Field<%s>" % ety, "operator=", 0, ety), a.path, [p])
        c.expect("=value <%s> %s" % (ety, EXECS[k]), outs, lambda s, _: [("every element is the value", elements(c, s, a, lambda t: vc))] + others(c, s, o), cover=("v",))
    return f


def assign_field(ety, k, alias):
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        e = c.T(ety)
        if alias:
            b = a
        else:
            st, b = mkfield(c, st, ety, "b", k)
        st, o = mkfield(c, st, ety, "o", k)
        outs = c.call(st, meth(c, "NeoFOAM::Field<%s>" % ety, "operator=", 0, "NeoFOAM::Field<%s>" % ety), a.path, [b.path])
        c.expect("=field <%s>%s %s" % (ety, " (itself)" if alias else "", EXECS[k]), outs,
                 lambda s, _: [("the target has the source's size and elements", elements(c, s, a, lambda t: comps(c, e, b.arr[t]), b.n)), ("executor kept", execof(c, s, a) == k)] + others(c, s, *([o] if alias else [b, o])), cover=("v",))
    return f


def apply(ety, k):
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, o = mkfield(c, st, ety, "o", k)
        st, _, n, arr = view(c, st, ety, "tab")
        st = st.assume(n >= a.n)
        arg = St(c.T("NeoFOAM::cxv::Inner<%s>" % ety), {"table": Path("tab_data", (("i", iv(0)),))})
        e = c.T(ety)
        outs = c.call(st, meth(c, "NeoFOAM::Field<%s>" % ety, "apply"), a.path, [arg])
        c.expect("apply<%s> %s" % (ety, EXECS[k]), outs, lambda s, _: [("every element is the function's value", elements(c, s, a, lambda t: comps(c, e, arr[t])))] + others(c, s, o), cover=("v",))
    return f


def equal_value(ety, k):
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        v, vc = elemval(c, st, ety, "value")
        outs = c.call(st, fnf(c, "equal", ety, par(c, 1, ety)), None, [a.path, v])
        e = c.T(ety)
        t = z3.Int("t")
        same = z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < a.n), z3.And(*[x == y for x, y in zip(comps(c, e, a.arr[t]), vc)])))
        c.expect("equal<%s> to a value %s" % (ety, EXECS[k]), outs, lambda s, r: [("true exactly when every element is the value", c.X.boolv(r) == same)] + others(c, s, a), cover=("v",))
    return f


def equal_field(ety, k, k2):
    def f(c):
        st, a = mkfield(c, c.state(), ety, "a", k)
        st, b = mkfield(c, st, ety, "b", k2)
        outs = c.call(st, fnf(c, "equal", ety, par(c, 1, "NeoFOAM::Field<%s>" % ety)), None, [a.path, b.path])
        t = z3.Int("t")
        same = z3.And(a.n == b.n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < a.n), eqel(c, c.T(ety), a.arr[t], b.arr[t]))))
        c.expect("equal<%s> of fields %s %s" % (ety, EXECS[k], EXECS[k2]), outs, lambda s, r: [("true exactly when sizes and elements agree", c.X.boolv(r) == same)] + others(c, s, a, b), cover=("v",))
    return f


CONTRACTS = []
for ety in TYPES:
    for k in range(3):
        for nm in ("fill", "setField", "map"):
            for kd in ("whole", "range"):
                CONTRACTS.append(("%s<%s> %s %s" % (nm, ety, kd, EXECS[k]), ranged(nm, ety, k, kd)))
        for al in (False, True):
            sfx = " aliased" if al else ""
            for nm in ("add", "sub") + (() if ety == "NeoFOAM::Vector" else ("mul",)):
                CONTRACTS.append(("%s<%s>%s %s" % (nm, ety, sfx, EXECS[k]), binary(nm, ety, k, al)))
            for nm in ("+=", "-=") + (("*=",) if ety == "double" else ()):
                CONTRACTS.append(("%s<%s>%s %s" % (nm, ety, sfx, EXECS[k]), binary(nm, ety, k, al, True)))
            for nm in ("+", "-"):
                CONTRACTS.append(("%s<%s>%s %s" % (nm, ety, sfx, EXECS[k]), value_op(nm, ety, k, al)))
            if ety == "double":
                CONTRACTS.append(("*<%s>%s %s" % (ety, sfx, EXECS[k]), prodfield(k, al)))
            CONTRACTS.append(("=field<%s>%s %s" % (ety, sfx, EXECS[k]), assign_field(ety, k, al)))
        CONTRACTS.append(("add<%s> mismatch %s" % (ety, EXECS[k]), mismatch("add", ety, k)))
        CONTRACTS.append(("=value<%s> %s" % (ety, EXECS[k]), assign_value(ety, k)))
        CONTRACTS.append(("apply<%s> %s" % (ety, EXECS[k]), apply(ety, k)))
        CONTRACTS.append(("equal value<%s> %s" % (ety, EXECS[k]), equal_value(ety, k)))
        for k2 in ((0, 1, 2) if ety == "double" else (k,)):
            CONTRACTS.append(("equal field<%s> %s %s" % (ety, EXECS[k], EXECS[k2]), equal_field(ety, k, k2)))
        if ety in ("double", "NeoFOAM::Vector"):
            for how in ("scalarMul", "*=", "*"):
                CONTRACTS.append(("%s scalar<%s> %s" % (how, ety, EXECS[k]), scale(ety, k, how)))
