"""C10: reading an input runs the reader of the alternative actually held, once, on exactly the value held."""
from .common import *
from cxv.units import INPUT

UNIT = INPUT
INP = "std::variant<NeoFOAM::Dictionary, NeoFOAM::TokenList>"


KIND = ["", "std::runtime_error", "std::bad_any_cast", "std::out_of_range", "std::bad_variant_access", "int"]


def counter(c, st, nm="cxvReads"):
    for n in c.u.byid.values():
        if n.get("kind") == "VarDecl" and n.get("name") == nm:
            (o,) = c.X.static_var(c.X.canon_var(n), st)
            return o.st, o.v
    raise Unsupported("no counter")


def read(c):
    fs = []
    for x in c.u.functions.get("NeoFOAM::read", ()):
        d = c.u.definition(x)
        if d is not None and not c.u.is_dependent(d) and d["id"] not in [y["id"] for y in fs]:
            fs.append(d)
    if not fs:
        raise Unsupported("no instantiation of read")
    for k, fn in enumerate(fs):
        if len(c.u.params(fn)) != 1:
            continue
        T = c.u.ty(c.u.params(fn)[0]).strip()
        st = c.state()
        v = c.S.fresh(T, "input")
        st, p = c.put(st, v, "input")
        st, pr = counter(c, st)
        n0 = c.X.read(st, pr)
        st, pt = counter(c, st, "cxvThrows")

        def ret(s, r):
            x = c.X.load(s, r) if isinstance(r, Path) else r
            g = [("a reader runs exactly once", c.X.read(s, pr) == n0 + 1), ("the caller's input is not modified", c.same(c.X.read(s, p), v))]
            if isinstance(v, VarV):
                alts = [(str(t), v.idx == i, w) for i, (t, w) in enumerate(zip(v.tys, v.vals))]
            else:
                alts = [(str(T), z3.BoolVal(True), v)]
            for t, cond, w in alts:
                j, f = (1, "d") if t.endswith("Dictionary") else (2, "t")
                g += [("the reader of the alternative held runs (%s)" % t, z3.Implies(cond, x.f["from"] == j)),
                      ("the value is read exactly as held (%s)" % t, z3.Implies(cond, c.same(x.f[f], w)))]
            return g
        # a valueless input (left behind by a throwing assignment) is not an input
        c.expect("read<Cls>(%s)" % T, c.call(st, fn, None, [p]), ret,
                 lambda s, t, x: [("a throwing reader has run exactly once", z3.And(c.X.read(s, pt) == (KIND.index(str(t)) if str(t) in KIND else -1), c.X.read(s, pr) == n0 + 1)), ("the caller's input is not modified", c.same(c.X.read(s, p), v))], cover=("v", "thr"))


CONTRACTS = [("read", read)]
