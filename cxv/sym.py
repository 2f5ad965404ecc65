"""Symbolic values, sorts and program states.

A program value is a Python object whose leaves are z3 terms.  Every type also has a z3 sort (Sorts.sort)
and values can be packed into one term / unpacked from one term, so containers hold arbitrary elements.
"""
import itertools, z3
from .ast import Ty, Unsupported

_ctr = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_ctr))


Str = z3.DeclareSort("Str")
Pay = z3.DeclareSort("Pay")       # payload of std::any / owned polymorphic objects
Fn = z3.DeclareSort("Fn")
PtrS = z3.DeclareSort("Ptr")
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_dt = z3.Datatype("Any")
_dt.declare("mk_any", ("tag", I), ("pay", Pay))
AnyS = _dt.create()
MAXU = 2 ** 64


def iv(n):
    return z3.IntVal(n)


simp = z3.simplify


class Path:
    """reference/pointer: a root object and a path into it.
    steps: ('f',field) ('k',key) ('ent',key) ('i',index) ('any',Ty) ('opt',) ('alt',i)"""
    __slots__ = ("root", "steps")

    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)

    def __add__(self, step):
        return Path(self.root, self.steps + (step,))

    def __repr__(self):
        return "@%s%s" % (self.root, "".join("." + ":".join(map(str, s)) for s in self.steps))

    def same(self, o):
        if not isinstance(o, Path) or self.root != o.root or len(self.steps) != len(o.steps):
            return False
        return all(step_eq(a, b) for a, b in zip(self.steps, o.steps))


def step_eq(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if not x.eq(y):
                return False
        elif isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef) or x != y:
            return False
    return True


class _Null:
    def __repr__(self):
        return "null"


NULL = _Null()
VOID = None


class St:
    """struct/class object; cls is the dynamic class (Ty); fields of base classes are flattened in"""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, name, v):
        g = dict(self.f)
        g[name] = v
        return St(self.cls, g)

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join("%s=%s" % kv for kv in self.f.items()))


class SeqV:
    """std::vector / initializer_list / array / heap block: length and z3 array of packed elements"""
    __slots__ = ("ety", "n", "arr")

    def __init__(self, ety, n, arr):
        self.ety, self.n, self.arr = ety, n, arr

    def __repr__(self):
        return "Seq<%s>(%s)" % (self.ety, self.n)


class MapV:
    """(unordered_)map / set: dom: Array K Bool, val: Array K V"""
    __slots__ = ("kty", "vty", "dom", "val", "kind")

    def __init__(self, kty, vty, dom, val, kind="unordered_map"):
        self.kty, self.vty, self.dom, self.val, self.kind = kty, vty, dom, val, kind

    def __repr__(self):
        return "Map<%s,%s>" % (self.kty, self.vty)


class OptV:
    __slots__ = ("ety", "has", "v")

    def __init__(self, ety, has, v):
        self.ety, self.has, self.v = ety, has, v


class VarV:
    """std::variant: idx term, one value per alternative"""
    __slots__ = ("tys", "idx", "vals")

    def __init__(self, tys, idx, vals):
        self.tys, self.idx, self.vals = tys, idx, vals


class ClosV:
    """lambda object: caps: decl id -> ('v', value) | ('r', Path)"""
    __slots__ = ("node", "caps", "this", "cls")

    def __init__(self, node, caps, this, cls):
        self.node, self.caps, self.this, self.cls = node, caps, this, cls


class FnPtr:
    __slots__ = ("decl",)

    def __init__(self, decl):
        self.decl = decl


class PyFn:
    """callable defined by the verifier (harness of a contract, bind results ...): f(st, args) -> [Out]"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ItV:
    """iterator. kind 'seq': pos Int. kind 'map': at key, or end when end is true; pos for enumerations"""
    __slots__ = ("kind", "cont", "pos", "key", "end", "enum")

    def __init__(self, kind, cont, pos=None, key=None, end=None, enum=None):
        self.kind, self.cont, self.pos, self.key, self.end, self.enum = kind, cont, pos, key, end, enum


class SpanV:
    """std::span over a block: base = path of the SeqV (without index step), off, n"""
    __slots__ = ("base", "off", "n", "ety")

    def __init__(self, base, off, n, ety):
        self.base, self.off, self.n, self.ety = base, off, n, ety

    def __repr__(self):
        return "Span(%s,%s,%s)" % (self.base, self.off, self.n)


class Opaque:
    """value whose content the properties never depend on (streams, exceptions' text, locks)"""
    __slots__ = ("what", "extra")

    def __init__(self, what, extra=None):
        self.what, self.extra = what, extra

    def __repr__(self):
        return "opaque:%s" % self.what


class State:
    __slots__ = ("store", "env", "pc", "log", "this", "caps", "exc", "depth", "kernel", "fn", "statics0")

    def __init__(self):
        self.store = {}
        self.env = {}
        self.pc = ()
        self.log = ()
        self.this = None
        self.caps = None
        self.exc = None
        self.depth = 0
        self.kernel = None
        self.fn = None
        self.statics0 = {}

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.env, s.pc, s.log, s.this, s.caps = self.env, self.pc, self.log, self.this, self.caps
        s.exc, s.depth, s.kernel, s.fn, s.statics0 = self.exc, self.depth, self.kernel, self.fn, self.statics0
        return s

    def assume(self, c):
        c = simp(c)
        if z3.is_true(c):
            return self
        s = self.copy()
        s.pc = self.pc + (c,)
        return s

    def bind(self, did, path):
        s = self.copy()
        s.env = dict(self.env)
        s.env[did] = path
        return s

    def event(self, e):
        s = self.copy()
        s.log = self.log + (e,)
        return s


class Out:
    """result of evaluating something on one path. k: v (value) next ret brk cont thr exit"""
    __slots__ = ("st", "k", "v")

    def __init__(self, st, k, v=None):
        self.st, self.k, self.v = st, k, v

    def __repr__(self):
        return "Out(%s,%s)" % (self.k, self.v)


def then(outs, f):
    r = []
    for o in outs:
        if o.k == "v":
            r.extend(f(o.st, o.v))
        else:
            r.append(o)
    return r


def val(st, v=None):
    return [Out(st, "v", v)]


def mentions(e, ids):
    """does z3 term e mention one of the constants whose get_id() is in ids?"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


class Sorts:
    """type -> z3 sort, packing and unpacking, fresh values, and facts attached to created terms"""

    def __init__(self, unit):
        self.u = unit
        self.cache = {}
        self.tags = {}
        self.facts = []            # always-valid facts about created terms
        self.lits = {}
        self.ptrs = {}             # repr(path) -> const
        self.ptr_of = {}           # const id -> Path
        self.fns = {}              # const id -> callable value
        self.lazy = {}             # root -> Ty, created when first touched
        self.opaque = set()        # type names treated as uninterpreted sorts
        self._fids = set()
        self.assumed = set()       # assumptions used (text)
        self.weak = {}            # facts that rarely matter: id -> (kind, fact)
        self.taint = set()         # name prefixes of over-approximated values
        self.proj = {}
        self._inj = set()
        self.const_statics = {}     # literal values of constants
        self._card = set()
        self._busy = []

    # ---------------------------------------------------------------- sorts
    def is_std(self, ty, nm):
        return ty.k == "named" and ty.name == "std::" + nm

    def kind(self, ty):
        """coarse kind of a type"""
        if ty.k == "named":
            n = ty.name
            if n == "Kokkos::pair":
                return "tup"
            if n in self.opaque or str(ty) in self.opaque:
                return "opaque"
            if n.startswith("std::"):
                m = n[5:]
                if m == "string":
                    return "str"
                if m in ("vector", "initializer_list", "array", "deque"):
                    return "seq"
                if m in ("unordered_map", "map", "set", "unordered_set"):
                    return "map"
                if m in ("any", "unique_ptr"):
                    return "any"
                if m == "function":
                    return "fn"
                if m in ("pair", "tuple"):
                    return "tup"
                if m == "optional":
                    return "opt"
                if m == "variant":
                    return "var"
                if m == "atomic":
                    return "atomic"
                if m == "span":
                    return "span"
                if m == "shared_ptr":
                    return "ptr"
                if m == "reference_wrapper":
                    return "ptr"
                return "opaque"
            if self.u.find_class(ty) is not None:
                return "struct"
            if ty.name in self.u.enums:
                return "int"
            return "opaque"
        if ty.k == "lambda":
            return "fn"
        if ty.k == "arr":
            return "seq"
        return ty.k

    def tup_fields(self, ty):
        if ty.name in ("std::pair", "Kokkos::pair"):
            return [("first", ty.args[0]), ("second", ty.args[1])]
        return [("#%d" % i, a) for i, a in enumerate(ty.args)]

    def elem(self, ty):
        return ty.args[0]

    def fixlen(self, ty):
        """length of a short fixed-size array type (its elements are then separate components), else None"""
        try:
            n = int(str(ty.args[1])) if ty.name == "std::array" else int(str(ty.name)) if ty.k == "arr" else None
        except (ValueError, TypeError, IndexError):
            return None
        return n if n is not None and 0 < n <= 8 else None

    def fields(self, ty):
        return [(n, t) for n, t, _ in self.u.fields(self.u.find_class(ty))]

    def sort(self, ty):
        s = str(ty)
        r = self.cache.get(s)
        if r is not None:
            return r
        k = self.kind(ty)
        if k == "int":
            r = I
        elif k == "bool":
            r = B
        elif k == "real":
            r = R
        elif k == "str":
            r = Str
        elif k == "any":
            r = AnyS
        elif k in ("fn",):
            r = Fn
        elif k in ("ref", "ptr"):
            r = PtrS
        elif k == "atomic":
            r = self.sort(ty.args[0])
        elif k == "seq":
            e = self.sort(self.elem(ty))
            n = self.fixlen(ty)
            r = self.dt("Arr_" + s, [("c%d" % i, e) for i in range(n)]) if n else self.dt("Seq_" + s, [("n", I), ("arr", z3.ArraySort(I, e))])
        elif k == "map":
            kk = self.sort(ty.args[0])
            vv = self.sort(ty.args[1]) if len(ty.args) > 1 and "set" not in ty.name else B
            r = self.dt("Map_" + s, [("dom", z3.ArraySort(kk, B)), ("val", z3.ArraySort(kk, vv))])
        elif k == "tup":
            r = self.dt("T_" + s, [(n, self.sort(t)) for n, t in self.tup_fields(ty)])
        elif k == "opt":
            r = self.dt("O_" + s, [("has", B), ("v", self.sort(ty.args[0]))])
        elif k == "var":
            r = self.dt("V_" + s, [("idx", I)] + [("v%d" % i, self.sort(t)) for i, t in enumerate(ty.args)])
        elif k == "span":
            r = self.dt("Span_" + s, [("base", PtrS), ("off", I), ("n", I)])
        elif k == "struct":
            if s in self._busy:
                raise Unsupported("recursive type " + s)
            self._busy.append(s)
            r = self.dt("S_" + s, [(n, self.sort(t)) for n, t in self.fields(ty)])
            self._busy.pop()
        elif k == "void":
            r = B
        else:
            r = z3.DeclareSort("U_" + s)
        self.cache[s] = r
        return r

    def dt(self, name, fs):
        d = z3.Datatype(name)
        d.declare("mk_" + name, *[(name + "." + f, so) for f, so in fs])
        return d.create()

    def tag(self, ty):
        s = str(ty)
        if s not in self.tags:
            self.tags[s] = len(self.tags) + 1
        return iv(self.tags[s])

    def tag_ty(self, n):
        for s, i in self.tags.items():
            if i == n:
                return self.u.types.parse(s)
        return None

    inj_axiom = False        # state proj(inj(x)) = x for all x, not only for the values boxed outside loops

    def injproj(self, ty):
        s = str(ty)
        if s not in self.proj:
            so = self.sort(ty)
            self.proj[s] = (z3.Function("inj<%s>" % s, so, Pay), z3.Function("proj<%s>" % s, Pay, so))
            if self.inj_axiom:
                x = z3.Const(fresh_name("x"), so)
                inj, proj = self.proj[s]
                self.fact(z3.ForAll([x], proj(inj(x)) == x, patterns=[inj(x)]))
        return self.proj[s]

    def to_any(self, v, ty):
        inj, proj = self.injproj(ty)
        t = simp(self.pack(v, ty))
        x = inj(t)
        self.fact(proj(x) == t)
        return AnyS.mk_any(self.tag(ty), x)

    def from_any(self, a, ty):
        inj, proj = self.injproj(ty)
        p = simp(AnyS.pay(a))
        if z3.is_app(p) and p.decl().eq(inj):
            return self.unpack(p.arg(0), ty)
        t = proj(p)
        return self.unpack(t, ty)

    def fact(self, f):
        f = simp(f)
        if not z3.is_true(f) and f.get_id() not in self._fids:
            self._fids.add(f.get_id())
            self.facts.append(f)

    # ---------------------------------------------------------------- pack/unpack
    def coerce_real(self, t):
        return z3.ToReal(t) if t.sort().eq(I) else t

    def pack(self, v, ty):
        if isinstance(v, z3.ExprRef):
            if ty is not None and self.kind(ty) == "real" and v.sort().eq(I):
                return z3.ToReal(v)
            return v
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return iv(v)
        so = self.sort(ty) if ty is not None else None
        if isinstance(v, St):
            fs = self.fields(ty) if self.kind(ty) == "struct" else self.tup_fields(ty)
            return eta(so, [self.pack(v.f[n], t) for n, t in fs])
        if isinstance(v, SeqV):
            n = self.fixlen(ty)
            if n:
                return eta(so, [simp(z3.Select(v.arr, iv(i))) for i in range(n)])
            return eta(so, [v.n, v.arr])
        if isinstance(v, MapV):
            return eta(so, [v.dom, v.val])
        if isinstance(v, OptV):
            return eta(so, [v.has, self.pack(v.v, v.ety)])
        if isinstance(v, VarV):
            return eta(so, [v.idx] + [self.pack(x, t) for x, t in zip(v.vals, v.tys)])
        if isinstance(v, SpanV):
            return so.constructor(0)(self.pack(v.base, Ty("ptr", args=(v.ety,))), v.off, v.n)
        if isinstance(v, Path) or v is NULL:
            key = repr(v)
            if key not in self.ptrs:
                c = z3.Const("ptr{%s}" % key, PtrS)
                self.ptrs[key] = c
                self.ptr_of[c.get_id()] = v
                for k2, c2 in self.ptrs.items():
                    if k2 != key and v is NULL or (isinstance(self.ptr_of[c2.get_id()], _Null) and k2 != key):
                        self.fact(c != c2)
            return self.ptrs[key]
        if isinstance(v, (ClosV, FnPtr, PyFn)):
            key = self.fnkey(v)
            c = z3.Const(key, Fn) if key else z3.Const(fresh_name("fn"), Fn)
            self.fns[c.get_id()] = (v, c)
            return c
        if isinstance(v, Opaque):
            return z3.Const(fresh_name("opaque"), so)
        raise Unsupported("pack %r as %s" % (type(v).__name__, ty))

    def fnkey(self, v):
        """callables that are the same function get the same term"""
        if isinstance(v, FnPtr):
            return "fn@%s" % v.decl["id"]
        if isinstance(v, ClosV) and not v.caps and v.this is None:
            return "lambda@%s" % v.cls["id"]
        return None

    def unpack(self, t, ty):
        k = self.kind(ty)
        if k in ("int", "bool", "real", "str", "any", "atomic"):
            if k == "int":
                self.range_fact(t, ty)
            return t
        if k == "fn":
            r = self.fns.get(t.get_id())
            return r[0] if r else t
        if k in ("ref", "ptr"):
            t = simp(t)
            p = self.ptr_of.get(t.get_id())
            if p is None:
                root = "*" + t.sexpr()
                if k == "ref" or ty.k == "ptr":
                    self.lazy.setdefault(root, ty.args[0].strip() if ty.args else None)
                else:
                    self.lazy.setdefault(root, ty.args[0])
                p = Path(root)
                self.ptrs[repr(p)] = t
                self.ptr_of[t.get_id()] = p
            return p
        so = self.sort(ty)

        def acc(i):
            return simp(so.accessor(0, i)(t))
        if k == "struct":
            return St(ty, {n: self.unpack(acc(i), ft) for i, (n, ft) in enumerate(self.fields(ty))})
        if k == "tup":
            return St(ty, {n: self.unpack(acc(i), ft) for i, (n, ft) in enumerate(self.tup_fields(ty))})
        if k == "seq":
            n = self.fixlen(ty)
            if n:
                es = self.sort(self.elem(ty))
                a = z3.Const("arrbase<%s>" % es, z3.ArraySort(I, es))
                for i in range(n):
                    a = z3.Store(a, iv(i), acc(i))
                return SeqV(self.elem(ty), iv(n), a)
            n = acc(0)
            self.fact(n >= 0)
            return SeqV(self.elem(ty), n, acc(1))
        if k == "map":
            st = "set" in ty.name
            return MapV(ty.args[0], Ty("bool", "bool") if st else ty.args[1], acc(0), acc(1), ty.name[5:])
        if k == "opt":
            return OptV(ty.args[0], acc(0), self.unpack(acc(1), ty.args[0]))
        if k == "var":
            i = acc(0)
            self.fact(z3.And(i >= 0, i < len(ty.args)))
            return VarV(list(ty.args), i, [self.unpack(acc(j + 1), a) for j, a in enumerate(ty.args)])
        if k == "span":
            self.fact(acc(2) >= 0)
            return SpanV(self.unpack(acc(0), Ty("ptr", args=(ty.args[0],))), acc(1), acc(2), ty.args[0])
        return t

    def range_fact(self, t, ty):
        from .ast import INTS
        if ty.name in INTS and not z3.is_int_value(t):
            bits, sg = INTS[ty.name]
            if sg:
                self.fact(z3.And(t >= -2 ** (bits - 1), t < 2 ** (bits - 1)))
            else:
                self.fact(z3.And(t >= 0, t < 2 ** bits))

    def fresh(self, ty, name=None):
        nm = name if name is not None else fresh_name("v")
        return self.unpack(z3.Const(nm, self.sort(ty)), ty)

    def default(self, ty):
        """value-initialised value"""
        k = self.kind(ty)
        if k == "int":
            return iv(0)
        if k == "atomic":
            return self.default(ty.args[0])
        if k == "bool":
            return z3.BoolVal(False)
        if k == "real":
            return z3.RealVal(0)
        if k == "str":
            return self.lit("")
        if k == "any":
            return AnyS.mk_any(iv(0), z3.Const("nopay", Pay))
        if k == "seq":
            es = self.sort(self.elem(ty))
            if ty.name == "std::array" or ty.k == "arr":
                n = int(str(ty.args[1]) if ty.name == "std::array" else ty.name)
                return SeqV(self.elem(ty), iv(n), z3.K(I, self.pack(self.default(self.elem(ty)), self.elem(ty))))
            return SeqV(self.elem(ty), iv(0), z3.Const("emptyarr<%s>" % es, z3.ArraySort(I, es)))
        if k == "map":
            ks = self.sort(ty.args[0])
            st = "set" in ty.name
            vt = Ty("bool", "bool") if st else ty.args[1]
            return MapV(ty.args[0], vt, z3.K(ks, z3.BoolVal(False)),
                        z3.Const("emptymap<%s>" % ty, z3.ArraySort(ks, self.sort(vt))), ty.name[5:])
        if k == "tup":
            return St(ty, {n: self.default(t) for n, t in self.tup_fields(ty)})
        if k == "opt":
            return OptV(ty.args[0], z3.BoolVal(False), self.fresh(ty.args[0]))
        if k == "var":
            return VarV(list(ty.args), iv(0), [self.default(t) if i == 0 else self.fresh(t) for i, t in enumerate(ty.args)])
        if k in ("ptr",):
            return NULL
        if k == "fn":
            return z3.Const("fn:empty", Fn)
        if k == "span":
            return SpanV(Path("nospan"), iv(0), iv(0), ty.args[0])
        if k == "opaque":
            return z3.Const("default<%s>" % ty, self.sort(ty))
        raise Unsupported("default value of %s" % ty)

    # ---------------------------------------------------------------- strings
    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const("lit:" + s, Str)
        return self.lits[s]

    def lit_facts(self):
        v = list(self.lits.values())
        return [z3.Distinct(*v)] if len(v) > 1 else []

    def ufun(self, name, args, ret):
        return z3.Function(name, *[a.sort() for a in args], ret)(*args)

    def concat(self, a, b):
        e = self.lit("")
        if a.eq(e):
            return b
        if b.eq(e):
            return a
        r = self.ufun("concat", [a, b], Str)
        self.fact(self.ufun("dropprefix", [a, r], Str) == b)
        self.fact(self.ufun("dropsuffix", [b, r], Str) == a)
        return r

    def tostr(self, i):
        r = self.ufun("to_string<%s>" % i.sort(), [i], Str)
        self.fact(self.ufun("unstring<%s>" % i.sort(), [r], i.sort()) == i)
        return r

    # ---------------------------------------------------------------- cardinality of map domains
    def card(self, dom):
        dom = simp(dom)
        f = z3.Function("card<%s>" % dom.sort(), dom.sort(), I)
        c = f(dom)
        if dom.get_id() not in self._card:
            self._card.add(dom.get_id())
            self._card_keep = getattr(self, "_card_keep", [])
            self._card_keep.append(dom)
            ks = dom.sort().domain()
            w = z3.Function("cardwit<%s>" % dom.sort(), dom.sort(), ks)
            x = z3.Const(fresh_name("x"), ks)
            self.fact(c >= 0)
            self.fact(z3.Implies(c > 0, z3.Select(dom, w(dom))))
            if z3.is_K(dom):
                self.fact(c == 0) if z3.is_false(dom.arg(0)) else None
            else:
                self.facts.append(z3.ForAll([x], z3.Implies(z3.Select(dom, x), c > 0)))
            if z3.is_store(dom):
                b, k, v = dom.children()
                cb = self.card(b)
                if z3.is_true(v):
                    self.fact(c == cb + z3.If(z3.Select(b, k), 0, 1))
                elif z3.is_false(v):
                    self.fact(c == cb - z3.If(z3.Select(b, k), 1, 0))
                else:
                    self.fact(c == cb + z3.If(z3.And(v, z3.Not(z3.Select(b, k))), 1, z3.If(z3.And(z3.Not(v), z3.Select(b, k)), -1, 0)))
            elif z3.is_app_of(dom, z3.Z3_OP_ITE):
                cc, a, b = dom.children()
                self.fact(c == z3.If(cc, self.card(a), self.card(b)))
        return c


BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT}


def patok(t):
    """can the term serve as a trigger?"""
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in BADPAT):
            return False
        st.extend(x.children())
    return True


def fa(vs, body, *pats):
    """quantified fact with alternative triggers (terms or tuples of terms; a None drops that alternative)"""
    import os
    ps = []
    if not os.environ.get("CXV_NOPAT"):
        for p in pats:
            p = p if isinstance(p, tuple) else (p,)
            if any(x is None or not patok(x) for x in p):
                continue
            ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    return z3.ForAll(vs, body, patterns=ps)


def eta(so, args):
    """constructor application; mk(acc0(x), acc1(x), ...) is x"""
    if not args:
        return so.constructor(0)()
    base = None
    for i, a in enumerate(args):
        if z3.is_app(a) and a.num_args() == 1 and a.decl().eq(so.accessor(0, i)) and (base is None or base.eq(a.arg(0))):
            base = a.arg(0)
        else:
            return so.constructor(0)(*args)
    return base


def ematch(s):
    """only unsat answers matter to the caller: do not search for models of quantified hypotheses"""
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
