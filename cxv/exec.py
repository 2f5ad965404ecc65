"""Symbolic executor over the extracted AST: one function body at a time, arbitrary inputs.

ev(n, st) returns a list of Out.  Glvalues evaluate to Path, prvalues to values.
Functions of /repo without a contract of their own are executed in place (so extracted helpers need no
annotation); functions with a registered contract are replaced by it; std:: and Kokkos:: functions are
given by the trusted contracts of std.py / kokkos.py; anything else is Unsupported.
"""
import json, os, re, z3
from .ast import Ty, Unsupported, INTS
from .sym import *

MAXDEPTH = 60
MAXPATHS = 400

EXC_BASES = {
    "std::exception": None, "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::bad_cast": "std::exception", "std::bad_any_cast": "std::bad_cast", "std::bad_alloc": "std::exception",
    "std::bad_function_call": "std::exception", "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::filesystem_error": "std::runtime_error",
}

PASS = {"ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
        "FullExpr", "CXXRewrittenBinaryOperator", "UnresolvedLookupExpr"}


class Exec:
    def __init__(self, unit):
        self.sizes = {}        # type -> size, where a contract fixes it
        self.u = unit
        self.S = Sorts(unit)
        self.contracts = {}      # qualified name -> handler(X, decl, st, this, args) -> [Out] or None to decline
        self.used = {}           # functions executed: signature -> location
        self.trusted = set()     # trusted external contracts used
        self.strict_narrow = False
        self.exact_iters = False
        self.nonneg = set()      # arrays (term ids) with no negative element
        self.solver_time = 0.0
        self.nprune = 0
        self.abstract_impl = {}  # polymorphic base -> handler
        from . import std, loops
        self.std = std.Std(self)
        self.loops = loops.Loops(self)
        from . import kokkos
        self.kokkos = kokkos.Kokkos(self)

    # ------------------------------------------------------------------ store
    def alloc(self, st, v, hint="t"):
        r = fresh_name(hint)
        s = st.copy()
        s.store[r] = v
        return s, Path(r)

    def root(self, st, r):
        v = st.store.get(r, self)
        if v is not self:
            return v
        ty = self.S.lazy.get(r)
        if ty is None:
            raise Unsupported("unknown object %s" % (r,))
        v = self.S.fresh(ty, "val%s" % (r,))
        st.store[r] = v          # deterministic name: same object in every fork
        return v

    def read(self, st, p):
        if not isinstance(p, Path):
            raise Unsupported("dereference of %r" % (p,))
        v = self.root(st, p.root)
        for s in p.steps:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        k = s[0]
        if isinstance(v, Path) and k != "deref":   # through a reference-typed slot
            v = self.read(st, v)
        if k == "f":
            if not isinstance(v, St) or s[1] not in v.f:
                raise Unsupported("no field %s in %r" % (s[1], type(v).__name__))
            return v.f[s[1]]
        if k == "k":
            if not isinstance(v, MapV):
                raise Unsupported("map step on %r" % (v,))
            return self.S.unpack(simp(z3.Select(v.val, s[1])), v.vty)
        if k == "ent":
            return St(Ty("named", "std::pair", (v.kty, v.vty)), {"first": self.S.unpack(s[1], v.kty), "second": self.S.unpack(simp(z3.Select(v.val, s[1])), v.vty)})
        if k == "i":
            if isinstance(v, SeqV):
                return self.S.unpack(simp(z3.Select(v.arr, s[1])), v.ety)
            if z3.is_int_value(simp(s[1])) and simp(s[1]).as_long() == 0:
                return v           # pointer to a single object
            raise Unsupported("index step on %r" % (v,))
        if k == "any":
            return self.S.from_any(v, s[1])
        if k == "opt":
            return v.v
        if k == "alt":
            return v.vals[s[1]]
        raise Unsupported("step %r" % (s,))

    def write(self, st, p, v):
        s = st.copy()
        s.store[p.root] = self._set(s, self.root(s, p.root) if p.steps else None, p.steps, v)
        return s

    def _set(self, st, old, steps, v):
        if not steps:
            return v
        k = steps[0]
        if isinstance(old, Path):
            raise Unsupported("write through reference slot")
        rest = steps[1:]
        if k[0] == "f":
            if not isinstance(old, St):
                raise Unsupported("field write into %r" % (old,))
            return old.with_(k[1], self._set(st, old.f.get(k[1]), rest, v))
        if k[0] in ("k", "ent"):
            if k[0] == "ent":
                if rest and rest[0] == ("f", "second"):
                    rest = rest[1:]
                else:
                    raise Unsupported("write to map entry key")
            cur = self.S.unpack(simp(z3.Select(old.val, k[1])), old.vty) if rest else None
            nv = self._set(st, cur, rest, v)
            return MapV(old.kty, old.vty, old.dom, z3.Store(old.val, k[1], self.S.pack(nv, old.vty)), old.kind)
        if k[0] == "i":
            if isinstance(old, SeqV):
                cur = self.S.unpack(simp(z3.Select(old.arr, k[1])), old.ety) if rest else None
                nv = self._set(st, cur, rest, v)
                return SeqV(old.ety, old.n, z3.Store(old.arr, k[1], self.S.pack(nv, old.ety)))
            if z3.is_int_value(simp(k[1])) and simp(k[1]).as_long() == 0:
                return self._set(st, old, rest, v)
            raise Unsupported("index write")
        if k[0] == "any":
            cur = self.S.from_any(old, k[1]) if rest else None
            return self.S.to_any(self._set(st, cur, rest, v), k[1])
        if k[0] == "opt":
            return OptV(old.ety, old.has, self._set(st, old.v, rest, v))
        if k[0] == "alt":
            vs = list(old.vals)
            vs[k[1]] = self._set(st, vs[k[1]], rest, v)
            return VarV(old.tys, old.idx, vs)
        raise Unsupported("write step %r" % (k,))

    def load(self, st, v):
        if isinstance(v, Path) and v.steps and v.steps[-1][0] == "as":
            return v
        return self.read(st, v) if isinstance(v, Path) else v

    # ------------------------------------------------------------------ feasibility
    def feasible(self, st, timeout=400):
        if any(z3.is_false(c) for c in st.pc):
            return False
        if not st.pc:
            return True
        s = z3.Solver()
        s.set("timeout", timeout)
        ematch(s)
        s.add(*st.pc)
        s.add(*self.S.lit_facts())
        s.add(*[f for f in self.S.facts if not has_quant(f)])
        self.nprune += 1
        return s.check() != z3.unsat

    def fork(self, st, c, ftrue, ffalse):
        c = simp(c)
        if z3.is_true(c):
            return ftrue(st)
        if z3.is_false(c):
            return ffalse(st)
        out = []
        a = st.assume(c)
        if self.feasible(a):
            out += ftrue(a)
        b = st.assume(z3.Not(c))
        if self.feasible(b):
            out += ffalse(b)
        if len(out) > MAXPATHS:
            raise Unsupported("too many paths")
        return out

    # ------------------------------------------------------------------ helpers on nodes
    def ty(self, n):
        return self.u.ty(n)

    def kids(self, n):
        return [c for c in n.get("inner", ()) if isinstance(c, dict) and c.get("kind")]

    def evs(self, nodes, st, f, acc=()):
        if not nodes:
            return f(st, list(acc))
        return then(self.ev(nodes[0], st), lambda s, v: self.evs(nodes[1:], s, f, acc + (v,)))

    def throw(self, st, ty, v=None):
        s = st.copy()
        return [Out(s, "thr", (ty, v))]

    def throw_std(self, st, name):
        return self.throw(st, Ty("named", "std::" + name))

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n["kind"]
        if k in PASS:
            if k == "ConstantExpr" and n.get("value") in ("true", "false"):
                return val(st, z3.BoolVal(n["value"] == "true"))
            ks = self.kids(n)
            return self.ev(ks[-1] if k == "SubstNonTypeTemplateParmExpr" else ks[0], st)
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, self.u.loc(n)))
        return m(n, st)

    def x_CXXBoolLiteralExpr(self, n, st):
        return val(st, z3.BoolVal(bool(n["value"])))

    def x_IntegerLiteral(self, n, st):
        return val(st, iv(int(n["value"])))

    def x_CharacterLiteral(self, n, st):
        return val(st, iv(int(n["value"])))

    def x_FloatingLiteral(self, n, st):
        # the shortest decimal that denotes this double: the number as written
        return val(st, z3.RealVal(repr(float(n["value"]))) if re.match(r"^[-+.\deE]+$", str(n["value"])) else z3.RealVal(0))

    def x_StringLiteral(self, n, st):
        v = n.get("value", '""')
        try:
            s = json.loads(v)
        except Exception:
            s = v.strip('"')
        st2, p = self.alloc(st, self.S.lit(s), "strlit")
        return val(st2, p)

    def x_CXXNullPtrLiteralExpr(self, n, st):
        return val(st, NULL)

    def x_GNUNullExpr(self, n, st):
        return val(st, NULL)

    def x_PredefinedExpr(self, n, st):
        st2, p = self.alloc(st, self.S.lit("__func__"), "strlit")
        return val(st2, p)

    def x_SourceLocExpr(self, n, st):
        return val(st, Opaque("source_location"))

    def x_CXXThisExpr(self, n, st):
        if st.this is None:
            raise Unsupported("this outside method")
        return val(st, st.this)

    def x_MaterializeTemporaryExpr(self, n, st):
        def f(s, v):
            if isinstance(v, Path) and n["type"]["qualType"].rstrip().endswith("*") is False and self.ty(n).k not in ("ptr",):
                return val(s, v)
            s2, p = self.alloc(s, v, "tmp")
            return val(s2, p)
        return then(self.ev(self.kids(n)[0], st), f)

    def x_CXXDefaultArgExpr(self, n, st):
        ks = self.kids(n)
        if ks:
            return self.ev(ks[0], st)
        raise Unsupported("default argument without expression")

    def x_CXXDefaultInitExpr(self, n, st):
        ks = self.kids(n)
        if ks:
            return self.ev(ks[0], st)
        raise Unsupported("default init without expression")

    def x_CXXScalarValueInitExpr(self, n, st):
        t = self.ty(n)
        return val(st, None if t.k == "void" else self.S.default(t))

    def x_ArrayInitLoopExpr(self, n, st):
        src = find_kind(n, ("OpaqueValueExpr",))
        t = self.ty(n)
        if src is None or not self.kids(src) or self.S.kind(self.S.elem(t)) not in ("int", "real", "bool", "ptr"):
            raise Unsupported("copy of an array of class objects")
        return then(self.ev(self.kids(src)[0], st), lambda s, v: val(s, self.load(s, v)))

    def x_ImplicitValueInitExpr(self, n, st):
        return self.value_init(self.ty(n), st)

    def x_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") == "sizeof":
            t = n.get("argType")
            ty = self.u.types.parse(t.get("desugaredQualType") or t["qualType"]) if t else self.ty(self.kids(n)[0])
            if str(ty.strip()) in self.sizes:
                return val(st, iv(self.sizes[str(ty.strip())]))
            c = z3.Int("sizeof(%s)" % ty.strip())
            self.S.fact(c >= 1)
            return val(st, c)
        raise Unsupported("trait expression")

    def x_TypeTraitExpr(self, n, st):
        v = n.get("value")
        if v is None:
            raise Unsupported("type trait")
        return val(st, z3.BoolVal(v in (True, "true", 1)))

    def x_CXXNoexceptExpr(self, n, st):
        return val(st, z3.Bool(fresh_name("noexcept")))

    def x_SizeOfPackExpr(self, n, st):
        raise Unsupported("sizeof...")

    def x_OpaqueValueExpr(self, n, st):
        return self.ev(self.kids(n)[0], st)

    def x_CXXTypeidExpr(self, n, st):
        t = n.get("typeArg")
        if t:
            ty = self.u.types.parse(t.get("desugaredQualType") or t["qualType"])
            return val(*self.alloc(st, Opaque("type_info", self.S.tag(ty)), "ti"))

        def f(s, v):
            return val(*self.alloc(s, Opaque("type_info", self.dyn_tag(s, v)), "ti"))
        return then(self.ev(self.kids(n)[0], st), f)

    def dyn_tag(self, st, p):
        v = self.load(st, p)
        if isinstance(v, St):
            return self.S.tag(v.cls)
        if isinstance(p, Path) and p.steps and p.steps[-1][0] == "own":
            return None
        return z3.Int(fresh_name("tag"))

    # --- casts
    def x_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)

    x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = x_BuiltinBitCastExpr = x_ImplicitCastExpr

    def cast(self, n, st):
        ck = n.get("castKind")
        c = [x for x in self.kids(n)][-1] if n["kind"] != "CXXFunctionalCastExpr" else self.kids(n)[0]
        if ck == "LValueToRValue":
            def f(s, v):
                r = self.read(s, v)
                if s.kernel is not None and isinstance(v, Path):
                    s = s.event(("rd", v))
                return val(s, r)
            return then(self.ev(c, st), f)
        if ck == "BitCast":
            def f(s, v):
                to = self.ty(n)
                if isinstance(v, Path) and to.k == "ptr" and to.args[0].strip().k != "void":
                    fr = self.ty(c)
                    if n["kind"] == "CXXReinterpretCastExpr" and fr.k == "ptr" and fr.args[0].strip().k != "void" and str(fr.args[0].strip()) != str(to.args[0].strip()):
                        return val(s, v + ("as", to.args[0].strip()))     # foreign view: an address, never read or written through
                    s, v = self.kokkos.typed(s, v, to.args[0].strip())
                return val(s, v)
            return then(self.ev(c, st), f)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BitCast", "BaseToDerived", "LValueBitCast", "MatchingCast", "Dependent"):
            return self.ev(c, st)
        if ck == "ArrayToPointerDecay":
            def f(s, v):
                x = self.load(s, v)
                if isinstance(x, SeqV):
                    return val(s, v + ("i", iv(0)))
                return val(s, v)
            return then(self.ev(c, st), f)
        if ck == "ToVoid":
            return then(self.ev(c, st), lambda s, v: val(s, None))
        if ck == "NullToPointer":
            return val(st, NULL)
        if ck == "IntegralToPointer":
            return then(self.ev(c, st), lambda s, v: val(s, Opaque("address %s" % (v,))))
        to = self.ty(n)
        if ck == "IntegralCast":
            return then(self.ev(c, st), lambda s, v: val(*self.narrow(s, v, self.ty(c), to)))
        if ck == "IntegralToFloating":
            return then(self.ev(c, st), lambda s, v: val(s, simp(z3.ToReal(v))))
        if ck == "FloatingToIntegral":
            def f(s, v):
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                return val(s, simp(r))
            return then(self.ev(c, st), f)
        if ck == "FloatingCast":
            return self.ev(c, st)
        if ck in ("IntegralToBoolean",):
            return then(self.ev(c, st), lambda s, v: val(s, simp(v != 0)))
        if ck == "FloatingToBoolean":
            return then(self.ev(c, st), lambda s, v: val(s, simp(v != 0)))
        if ck == "PointerToBoolean":
            def f(s, v):
                return val(s, z3.BoolVal(v is not NULL))
            return then(self.ev(c, st), f)
        raise Unsupported("cast %s" % ck)

    def narrow(self, s, v, fr, to):
        """contracts that ask for it: a conversion to an 8 or 16 bit type must keep the value"""
        if self.strict_narrow and to.k == "int" and fr.k == "int" and to.name in INTS and fr.name in INTS and INTS[to.name][0] < min(32, INTS[fr.name][0]) and not z3.is_int_value(simp(v)):
            lim = 2 ** INTS[to.name][0] if not INTS[to.name][1] else 2 ** (INTS[to.name][0] - 1)
            g = simp(z3.Implies(z3.And(*s.pc) if s.pc else z3.BoolVal(True), z3.And(v < lim, v >= (0 if not INTS[to.name][1] else -lim))))
            return s.event(("pre", g, "a conversion to %s keeps the value" % to.name)), v
        return s, self.int_cast(v, fr, to)

    def int_cast(self, v, fr, to):
        if z3.is_bool(v):
            return simp(z3.If(v, iv(1), iv(0)))
        if to.k == "bool":
            return simp(v != 0)
        if to.name not in INTS or fr.name not in INTS:
            return v       # enums
        bt, sgt = INTS[to.name]
        bf, sgf = INTS[fr.name]
        v = simp(v)
        if z3.is_int_value(v):
            x = v.as_long() % (2 ** bt)
            if sgt and x >= 2 ** (bt - 1):
                x -= 2 ** bt
            return iv(x)
        if sgt == sgf and bt >= bf or (sgt and not sgf and bt > bf):
            return v
        if not sgt and sgf and bt >= bf:
            if self.provably_nonneg(v):
                return v
            return z3.If(v >= 0, v, v + 2 ** bt)
        if sgt and not sgf and bt == bf:
            # size_t -> long and the like: values beyond 2^(n-1) do not arise for sizes and indices
            self.S.assumed.add("unsigned-to-signed conversions of equal width do not overflow (sizes and indices below 2^%d)" % (bt - 1))
            return v
        if bt < bf and bt >= 32:
            self.S.assumed.add("narrowing conversions %s -> %s do not lose value (labels below 2^31)" % (fr.name, to.name))
            return v
        return simp(v % (2 ** bt)) if not sgt else v

    def provably_nonneg(self, v):
        if z3.is_int_value(v):
            return v.as_long() >= 0
        d = v.decl() if z3.is_app(v) else None
        if d is not None and d.name() in ("to_size", "card"):
            return True
        # storage whose elements a contract's precondition bounds below by zero (reads outside it are obligations of their own)
        if z3.is_app_of(v, z3.Z3_OP_SELECT) and v.arg(0).get_id() in self.nonneg:
            return True
        return False

    def x_CXXDynamicCastExpr(self, n, st):
        to = self.ty(n)
        isptr = to.k == "ptr"
        tgt = to.args[0].strip() if isptr else to.strip()

        def f(s, v):
            if v is NULL:
                return val(s, NULL)
            if isinstance(v, Opaque) and v.what == "new":
                d = self.S.tag_ty(simp(AnyS.tag(v.extra)).as_long())
                return val(s, v if self.derives(d, tgt) else NULL)
            return self.dyn_cast(s, v, tgt, isptr)
        return then(self.ev(self.kids(n)[0], st), f)

    def dyn_cast(self, s, p, tgt, isptr):
        def bad(st):
            return val(st, NULL) if isptr else self.throw_std(st, "bad_cast")
        if p.steps and p.steps[-1][0] == "any":
            own = Path(p.root, p.steps[:-1])
            cell = self.read(s, own)
            tag = simp(AnyS.tag(cell))
            if z3.is_int_value(tag):
                d = self.S.tag_ty(tag.as_long())
                return val(s, Path(p.root, p.steps[:-1] + (("any", d),))) if d is not None and self.derives(d, tgt) else bad(s)
            good = [t for t in self.known_subclasses(tgt)]
            if not good:
                good = [tgt]
            outs = []
            rest = s
            for t in good:
                a = rest.assume(tag == self.S.tag(t))
                if self.feasible(a):
                    outs += val(a, own + ("any", t))
                rest = rest.assume(tag != self.S.tag(t))
            if self.feasible(rest):
                outs += bad(rest)
            return outs
        if p.steps and p.steps[-1][0] == "own":
            return self.dyn_cast(s, Path(p.root, p.steps[:-1] + (("any", None),)), tgt, isptr)
        v = self.read(s, p)
        if isinstance(v, St):
            return val(s, p) if self.derives(v.cls, tgt) else bad(s)
        raise Unsupported("dynamic_cast on %r" % (v,))

    def derives(self, d, b):
        if str(d) == str(b):
            return True
        c = self.u.find_class(d)
        return c is not None and any(self.derives(x, b) for x in self.u.bases(c))

    def known_subclasses(self, b):
        out = []
        for qn, l in self.u.class_plain.items():
            for c in l:
                if not c.get("completeDefinition") or self.u.is_template_pattern(c) or c["kind"].endswith("PartialSpecialization"):
                    continue
                t = self.class_ty(c)
                if t is not None and self.derives(t, b) and not (c.get("definitionData") or {}).get("isAbstract"):
                    if str(t) not in map(str, out):
                        out.append(t)
        return out

    def class_ty(self, c):
        if c["kind"] == "ClassTemplateSpecializationDecl":
            return Ty("named", c["_qn"], [self.u.types.parse(a) for a in c["_targs"]])
        if c["kind"] == "CXXRecordDecl":
            p = c.get("_parent")
            if p is not None and p.get("kind") == "ClassTemplateSpecializationDecl":
                return Ty("named", c["_qn"], [self.u.types.parse(a) for a in p["_targs"]])
            return Ty("named", c["_qn"])
        return None

    # --- names
    def x_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        did, k = d["id"], d["kind"]
        if st.caps is not None and did in st.caps:
            return val(st, st.caps[did])
        if did in st.env:
            return val(st, st.env[did])
        if k == "EnumConstantDecl":
            return val(st, iv(self.enum_value(did, d)))
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return val(st, FnPtr(self.u.byid.get(did) or d))
        if k in ("VarDecl", "VarTemplateSpecializationDecl"):
            return self.global_var(n, did, d, st)
        if k == "BindingDecl":
            b = self.u.byid.get(did)
            if b is not None and self.kids(b):
                return self.ev(self.kids(b)[0], st)
        raise Unsupported("reference to %s %s" % (k, d.get("name")))

    def enum_value(self, did, d):
        n = self.u.byid.get(did)
        if n is None:
            raise Unsupported("external enum constant %s" % d.get("name"))
        cur = -1
        for c in n["_parent"].get("inner", ()):
            if c.get("kind") == "EnumConstantDecl":
                lit = find_value(c)
                cur = cur + 1 if lit is None else lit
                if c["id"] == did:
                    return cur
        raise Unsupported("enum constant")

    def global_var(self, n, did, d, st):
        node = self.u.byid.get(did)
        if node is None:
            ty = self.ty(n)
            if ty.k == "named" and ty.name in ("std::ostream",):
                s, p = self.alloc(st, Opaque("ostream"), "stream")
                return val(s, p)
            r = "ext:" + str(d.get("name"))
            s = st.copy()
            s.store.setdefault(r, Opaque("external " + str(d.get("name"))))
            return val(s, Path(r))
        # static storage: class static, namespace scope
        node = self.canon_var(node)
        return self.static_var(node, st)

    def canon_var(self, node):
        seen = set()
        while node.get("previousDecl") and node["id"] not in seen:
            seen.add(node["id"])
            p = self.u.byid.get(node["previousDecl"])
            if p is None:
                break
            node = p
        return node

    def static_key(self, node):
        if node.get("tls"):
            return "static:tls:%s:%s" % (node.get("mangledName") or node.get("name"), node["id"])
        return "static:%s:%s" % (node.get("mangledName") or node.get("name"), node["id"])

    def static_var(self, node, st):
        r = self.static_key(node)
        if r in st.store:
            return val(st, Path(r))
        ty = self.ty(node)
        q = node["type"]["qualType"]
        init = self.var_init(node)
        if init is None:
            # definition elsewhere?
            for o in self.u.byid.values():
                if o.get("kind") == "VarDecl" and o.get("previousDecl") == node["id"] and self.var_init(o) is not None:
                    init = self.var_init(o)
        const = q.startswith("const ") or node.get("constexpr")
        if ty.k == "ref":
            if init is None:
                raise Unsupported("static reference")
            outs = self.ev(init, st)
            return then(outs, lambda s, v: val(self.set_root(s, r + "&", v), v))
        if const and init is not None:
            def keep(s, v):
                v = self.load(s, v) if isinstance(v, Path) and ty.k != "ptr" else v
                if z3.is_expr(v) and (z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_true(v) or z3.is_false(v)):
                    self.S.const_statics[r] = v
                return val(self.set_root(s, r, v), Path(r))
            return then(self.ev(init, st), keep)
        # arbitrary history: any value (initial value included)
        s = st.copy()
        s.store[r] = self.S.fresh(ty, "init(%s)" % r)
        s.statics0 = dict(s.statics0)
        s.statics0[r] = s.store[r]
        return val(s, Path(r))

    def set_root(self, st, r, v):
        s = st.copy()
        s.store[r] = v
        return s

    def var_init(self, node):
        if not node.get("init"):
            return None
        ks = [c for c in self.kids(node) if not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment") and c["kind"] != "BindingDecl"]
        return ks[-1] if ks else None

    def x_MemberExpr(self, n, st):
        b = self.kids(n)[0]
        mid = n.get("referencedMemberDecl")
        md = self.u.byid.get(mid)
        if md is not None and md["kind"] == "VarDecl":      # static data member
            return then(self.ev(b, st), lambda s, v: self.static_var(self.canon_var(md), s))
        if md is not None and md["kind"] == "EnumConstantDecl":
            return then(self.ev(b, st), lambda s, v: val(s, iv(self.enum_value(mid, md))))

        def f(s, v):
            return self.member(s, v, n["name"], md, n)
        return then(self.ev(b, st), f)

    def member(self, s, v, name, md, n=None):
        if v is NULL:
            raise Unsupported("null dereference")
        if isinstance(v, ItV):
            v = self.std.deref(s, v)
        if not isinstance(v, Path):
            # field of prvalue
            if isinstance(v, St):
                return val(s, v.f[name])
            raise Unsupported("member %s of %r" % (name, v))
        if v.steps and v.steps[-1][0] == "ent":
            if name == "second":
                return val(s, Path(v.root, v.steps[:-1] + (("k", v.steps[-1][1]),)))
            if name == "first":
                m = self.read(s, Path(v.root, v.steps[:-1]))
                s2, p = self.alloc(s, self.S.unpack(v.steps[-1][1], m.kty), "key")
                return val(s2, p)
        if v.steps and v.steps[-1][0] == "own":
            v = self.resolve_own(s, v)
        base = self.load(s, v)
        if isinstance(base, Path):
            v, base = base, self.load(s, base)
        if not isinstance(base, St):
            raise Unsupported("member %s of %r" % (name, type(base).__name__))
        fn = name or "$anon%s" % md["id"]
        if fn not in base.f:
            raise Unsupported("no member %s" % name)
        x = base.f[fn]
        if isinstance(x, Path) and md is not None and self.ty(md).k == "ref":
            return val(s, x)
        return val(s, v + ("f", fn))

    own_types = ()

    def resolve_own(self, s, p):
        """*unique_ptr: the owned object, dynamic type known or Unsupported"""
        own = Path(p.root, p.steps[:-1])
        cell = self.read(s, own)
        tag = simp(AnyS.tag(cell))
        if z3.is_int_value(tag):
            d = self.S.tag_ty(tag.as_long())
            if d is not None:
                return own + ("any", d)
        for d in self.own_types:          # types the contract's precondition gives the owned objects
            if self.loops.valid(s, tag == self.S.tag(d)):
                return own + ("any", d)
        raise Unsupported("owned object of unknown dynamic type")

    def x_ArraySubscriptExpr(self, n, st):
        a, b = self.kids(n)[:2]

        def f(s, vs):
            p, i = vs
            if isinstance(i, Path):
                p, i = i, p
            return val(s, self.ptr_add(s, p, i))
        return self.evs([a, b], st, f)

    def ptr_add(self, s, p, i):
        if isinstance(p, ItV) and p.kind in ("seq", "span"):
            return p.cont + ("i", simp(p.pos + i))
        if isinstance(p, Path):
            if p.steps and p.steps[-1][0] == "i":
                return Path(p.root, p.steps[:-1] + (("i", simp(p.steps[-1][1] + i)),))
            return p + ("i", simp(i))
        raise Unsupported("pointer arithmetic on %r" % (p,))

    # --- operators
    def x_UnaryOperator(self, n, st):
        op = n["opcode"]
        c = self.kids(n)[0]
        ty = self.ty(n)
        if op == "*":
            def f(s, v):
                if isinstance(v, FnPtr):
                    return val(s, v)
                if isinstance(v, ItV):
                    return val(s, self.std.deref(s, v))
                if v is NULL:
                    raise Unsupported("null dereference")
                if isinstance(v, Path) and v.steps and v.steps[-1][0] == "own":
                    try:
                        v = self.resolve_own(s, v)
                    except Unsupported:
                        pass
                return val(s, v)
            return then(self.ev(c, st), f)
        if op == "&":
            return self.ev(c, st)
        if op == "!":
            return then(self.ev(c, st), lambda s, v: val(s, simp(z3.Not(self.boolv(v)))))
        if op == "-":
            return then(self.ev(c, st), lambda s, v: val(s, simp(self.wrap(-v, ty))))
        if op == "+":
            return self.ev(c, st)
        if op == "~":
            raise Unsupported("bitwise not")
        if op in ("++", "--"):
            def f(s, p):
                old = self.read(s, p)
                d = iv(1) if op == "++" else iv(-1)
                if isinstance(old, ItV):
                    return self.std.it_op(s, "operator" + op, p, old, [0] if n.get("isPostfix") else [], n)
                if isinstance(old, Path):
                    new = self.ptr_add(s, old, d)
                elif z3.is_real(old):
                    new = old + z3.ToReal(d)
                else:
                    new = simp(self.wrap(old + d, self.ty(c).strip()))
                s2 = self.write(s, p, new)
                if s2.kernel is not None:
                    s2 = s2.event(("rd", p)).event(("wr", p))
                if n.get("isPostfix"):
                    return val(s2, old)
                return val(s2, p if n.get("valueCategory") == "lvalue" else new)
            return then(self.ev(c, st), f)
        raise Unsupported("unary " + op)

    def boolv(self, v):
        if isinstance(v, Path):
            return z3.BoolVal(True)
        if v is NULL:
            return z3.BoolVal(False)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if not z3.is_bool(v):
            return v != 0
        return v

    def wrap(self, e, ty):
        """unsigned arithmetic wraps; signed overflow is undefined behaviour and assumed absent"""
        if ty.k == "int" and ty.name in INTS and not INTS[ty.name][1]:
            bits = INTS[ty.name][0]
            e = simp(e)
            if z3.is_int_value(e):
                return iv(e.as_long() % (2 ** bits))
            if z3.is_app(e) and has_neg(e):
                return z3.If(e >= 0, e, e + 2 ** bits)
            self.S.assumed.add("unsigned sums and products do not exceed the type's range (sizes below 2^%d)" % bits)
            return e
        if ty.k == "int":
            self.S.assumed.add("signed integer arithmetic does not overflow (undefined behaviour in C++)")
        return e

    def x_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = self.kids(n)
        if op == ",":
            return then(self.ev(a, st), lambda s, v: self.ev(b, s))
        if op in ("&&", "||"):
            def f(s, v):
                v = simp(self.boolv(v))

                def rhs(s2):
                    return then(self.ev(b, s2), lambda s3, w: val(s3, self.boolv(w)))
                if op == "&&":
                    return self.fork(s, v, rhs, lambda s2: val(s2, z3.BoolVal(False)))
                return self.fork(s, v, lambda s2: val(s2, z3.BoolVal(True)), rhs)
            return then(self.ev(a, st), f)
        if op == "=":
            def f(s, vs):
                return self.assign(s, vs[0], vs[1])
            return self.evs([a, b], st, f)
        ty = self.ty(n)

        def g(s, vs):
            return self.arith(s, op, vs[0], vs[1], ty, self.ty(a).strip())
        return self.evs([a, b], st, g)

    def assign(self, s, p, v):
        if not isinstance(p, Path):
            raise Unsupported("assignment to %r" % (p,))
        s2 = self.write(s, p, v)
        if s2.kernel is not None:
            s2 = s2.event(("wr", p))
        return val(s2, p)

    def arith(self, s, op, x, y, ty, opty=None):
        if isinstance(x, ItV):
            return self.std.it_op(s, "operator" + op, None, x, [y], None)
        if isinstance(y, ItV):
            raise Unsupported("iterator arithmetic")
        if isinstance(x, Path) or isinstance(y, Path) or x is NULL or y is NULL or isinstance(x, FnPtr) or isinstance(y, FnPtr):
            return self.ptr_op(s, op, x, y)
        x, y = self.num(x), self.num(y)
        if x is None or y is None:
            raise Unsupported("operator %s on non-numbers" % op)
        if z3.is_real(x) != z3.is_real(y):
            x, y = self.S.coerce_real(x), self.S.coerce_real(y)
        if op == "+":
            return val(s, simp(self.wrap(x + y, ty)))
        if op == "-":
            return val(s, simp(self.wrap(x - y, ty)))
        if op == "*":
            return val(s, simp(self.wrap(x * y, ty)))
        if op == "/":
            if z3.is_real(x):
                self.S.assumed.add("real division: divisors are non-zero where the code divides (x/0 is left unspecified)")
                return val(s, simp(x / y))
            q = z3.If(z3.And(x >= 0, y > 0), x / y, z3.If(z3.And(x < 0, y > 0), -((-x) / y), z3.If(z3.And(x >= 0, y < 0), -(x / (-y)), (-x) / (-y))))
            if ty.k == "int" and ty.name in INTS and not INTS[ty.name][1]:
                q = x / y
            return val(s, simp(q))
        if op == "%":
            r = x % y
            if not (ty.k == "int" and ty.name in INTS and not INTS[ty.name][1]):
                r = z3.If(x >= 0, x % y, -((-x) % y))
            return val(s, simp(r))
        if op in CMP:
            return val(s, simp(CMP[op](x, y)))
        if op in ("<<", ">>") and z3.is_int_value(simp(y)):
            f = 2 ** simp(y).as_long()
            return val(s, simp(x * f if op == "<<" else x / f))
        if op == "&" and z3.is_int(x) and z3.is_int_value(simp(y)) and simp(y).as_long() > 0 and simp(y).as_long() & (simp(y).as_long() + 1) == 0:
            return val(s, simp(x % (simp(y).as_long() + 1)))
        if op in ("&", "|", "^") and z3.is_bool(x):
            return val(s, simp({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y)))
        raise Unsupported("operator " + op)

    def num(self, v):
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return z3.If(v, iv(1), iv(0))
            if z3.is_int(v) or z3.is_real(v):
                return v
            if v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                return None
        return None

    def ptr_op(self, s, op, x, y):
        if op in ("==", "!="):
            if x is NULL or y is NULL:
                o = y if x is NULL else x
                if o is NULL:
                    eq = True
                elif isinstance(o, Path):
                    eq = False
                    if o.steps and o.steps[-1][0] == "own":
                        cell = self.read(s, Path(o.root, o.steps[:-1]))
                        c = AnyS.tag(cell) == 0
                        return val(s, simp(c if op == "==" else z3.Not(c)))
                else:
                    eq = False
                return val(s, z3.BoolVal(eq if op == "==" else not eq))
            if isinstance(x, Path) and isinstance(y, Path):
                c = self.path_eq(x, y)
                return val(s, simp(c if op == "==" else z3.Not(c)))
        if op in ("+", "-") and isinstance(x, Path) and isinstance(y, z3.ExprRef):
            return val(s, self.ptr_add(s, x, y if op == "+" else -y))
        if op == "+" and isinstance(y, Path):
            return val(s, self.ptr_add(s, y, x))
        if op == "-" and isinstance(x, Path) and isinstance(y, Path) and x.root == y.root:
            return val(s, simp(self.off(x) - self.off(y)))
        if op in ("<", "<=", ">", ">=") and isinstance(x, Path) and isinstance(y, Path) and x.root == y.root:
            return val(s, simp(CMP[op](self.off(x), self.off(y))))
        raise Unsupported("pointer operator %s" % op)

    def off(self, p):
        return p.steps[-1][1] if p.steps and p.steps[-1][0] == "i" else iv(0)

    def path_eq(self, x, y):
        if x.root != y.root:
            if str(x.root).startswith("*") and str(y.root).startswith("*"):
                return self.S.pack(x, None) == self.S.pack(y, None)
            return z3.BoolVal(False)
        a, b = list(x.steps), list(y.steps)
        if len(a) != len(b):
            if a and a[-1][0] == "i":
                b.append(("i", iv(0)))
            elif b and b[-1][0] == "i":
                a.append(("i", iv(0)))
        if len(a) != len(b):
            return z3.BoolVal(False)
        cs = []
        for u, v in zip(a, b):
            if u[0] != v[0] or len(u) != len(v):
                return z3.BoolVal(False)
            for p, q in zip(u[1:], v[1:]):
                if isinstance(p, z3.ExprRef) and isinstance(q, z3.ExprRef):
                    cs.append(p == q)
                elif p != q:
                    return z3.BoolVal(False)
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def x_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        a, b = self.kids(n)
        ty = self.ty(n).strip()

        def f(s, vs):
            p, y = vs
            x = self.read(s, p)
            ct = n.get("computeResultType")
            cty = self.u.types.parse(ct.get("desugaredQualType") or ct["qualType"]) if ct else ty
            if cty.k == "real" and isinstance(x, z3.ExprRef) and z3.is_int(x):
                x = z3.ToReal(x)

            def g(s2, r):
                if ty.k == "int" and isinstance(r, z3.ExprRef) and z3.is_real(r):
                    r = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
                elif ty.k == "int" and cty.k == "int":
                    r = self.int_cast(r, cty, ty)
                s3 = self.write(s2, p, r)
                if s3.kernel is not None:
                    s3 = s3.event(("rd", p)).event(("wr", p))
                return val(s3, p)
            return then(self.arith(s, op, x, y, cty), g)
        return self.evs([a, b], st, f)

    def x_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        return then(self.ev(c, st), lambda s, v: self.fork(s, self.boolv(v), lambda s2: self.ev(a, s2), lambda s2: self.ev(b, s2)))

    # --- lambda
    def x_LambdaExpr(self, n, st):
        ks = self.kids(n)
        cls = ks[0]
        fields = [c for c in cls.get("inner", ()) if c.get("kind") == "FieldDecl"]
        inits = [c for c in ks[1:] if c["kind"] != "CompoundStmt"]
        caps, this, copies = {}, None, set()
        s = st
        named = self.init_captures(n, cls, fields, inits, st)
        for f, e in zip(fields, inits):
            ft = self.ty(f)
            if f["id"] in named:
                outs = self.ev(e, s)
                if len(outs) != 1 or outs[0].k != "v":
                    raise Unsupported("capture with branches")
                s, v = outs[0].st, outs[0].v
                did = named[f["id"]]
                if ft.k == "ref":
                    caps[did] = v
                else:
                    if isinstance(v, Path) and ft.k != "ptr":
                        v = self.read(s, v)
                    s, caps[did] = self.alloc(s, v, "cap")
                    copies.add(did)
                continue
            tgt = find_kind(e, ("CXXThisExpr", "DeclRefExpr"))
            if tgt is None and find_kind(e, ("CXXThisExpr",)) is None:
                raise Unsupported("lambda init-capture")
            if tgt["kind"] == "CXXThisExpr":
                if ft.k == "ptr":
                    this = s.this
                    continue
                s, this = self.alloc(s, self.read(s, s.this), "thiscopy")
                continue
            did = tgt["referencedDecl"]["id"]
            if tgt["referencedDecl"].get("name") and f.get("name") and f["name"] != tgt["referencedDecl"]["name"]:
                raise Unsupported("lambda init-capture")
            if ft.k == "ref":
                outs = self.ev(e, s)
                if len(outs) != 1 or outs[0].k != "v":
                    raise Unsupported("capture")
                s = outs[0].st
                caps[did] = outs[0].v
            else:
                outs = self.ev(e, s)
                if len(outs) != 1 or outs[0].k != "v":
                    raise Unsupported("capture with branches")
                s = outs[0].st
                v = outs[0].v
                if isinstance(v, Path) and ft.k != "ptr":
                    v = self.read(s, v)
                s, p = self.alloc(s, v, "cap_" + str(f.get("name") or tgt["referencedDecl"].get("name")))
                caps[did] = p
                copies.add(did)
        # a nested lambda sees the captures of the enclosing one
        return val(s, ClosV(n, caps, this, cls))

    # --- new/delete/throw
    def init_captures(self, n, cls, fields, inits, st):
        """[name = expression]: the dump does not declare the variables introduced, so they are the variables the body
        uses that exist nowhere else, in order of creation; the number and the types have to agree"""
        used, own = {}, set()

        def walk(x):
            if x.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"):
                own.add(x["id"])
            r = x.get("referencedDecl")
            if x.get("kind") == "DeclRefExpr" and r and r["kind"] == "VarDecl":
                used[r["id"]] = r
            for c in x.get("inner", ()):
                walk(c)
        ops = [m for m in cls.get("inner", ()) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
        ops += [t for m in cls.get("inner", ()) if m.get("kind") == "FunctionTemplateDecl" for t in m.get("inner", ()) if t.get("kind") == "CXXMethodDecl"]
        for m in ops:
            walk(m)
        new = [r for i, r in used.items() if i not in own and i not in st.env and i not in (st.caps or ()) and i not in self.u.byid]
        if not new:
            return {}
        new.sort(key=lambda r: int(r["id"], 16))
        cand = []
        for f, e in zip(fields, inits):
            t = find_kind(e, ("CXXThisExpr", "DeclRefExpr"))
            plain = e["kind"] == "CXXThisExpr" or (t is not None and t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] in used)
            if not plain:
                cand.append(f)
        tys = [self.u.types.parse(r["type"].get("desugaredQualType") or r["type"]["qualType"]) for r in new]
        if len(cand) != len(new) or any(str(self.ty(f).strip()) != str(t.strip()) for f, t in zip(cand, tys)):
            raise Unsupported("lambda init-capture")
        return {f["id"]: r["id"] for f, r in zip(cand, new)}

    def x_CXXThrowExpr(self, n, st):
        ks = self.kids(n)
        if not ks:
            if st.exc is None:
                raise Unsupported("rethrow outside handler")
            return [Out(st, "thr", st.exc)]
        t = self.ty(ks[0]).strip()

        def f(s, v):
            if isinstance(v, Path) and t.k != "ptr":
                v = self.load(s, v)
            return [Out(s, "thr", (t, v))]
        return then(self.ev(ks[0], st), f)

    def x_CXXNewExpr(self, n, st):
        """new T(args): only as the initial owner of a smart pointer"""
        if n.get("isArray") or n.get("isPlacement"):
            raise Unsupported("array or placement new")
        t = self.ty(n).args[0].strip()
        ks = self.kids(n)

        def f(s, v):
            if isinstance(v, Path) and t.k != "ptr":
                v = self.read(s, v)
            return val(s, Opaque("new", self.S.to_any(v, t)))
        if not ks:
            return then(self.value_init(t, st), f)
        return then(self.ev(ks[0], st), f)

    def x_CXXDeleteExpr(self, n, st):
        return then(self.ev(self.kids(n)[0], st), lambda s, v: val(s, None))

    # --- construction
    def x_CXXConstructExpr(self, n, st):
        return self.construct_expr(n, st)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXInheritedCtorInitExpr(self, n, st):
        raise Unsupported("inherited constructor")

    def construct_expr(self, n, st, at=None):
        ty = self.ty(n).strip()
        args = self.kids(n)
        if not (self.S.kind(ty) == "struct" and self.u.find_class(ty) is not None):
            args = [a for a in args if not (a.get("kind") == "CXXDefaultArgExpr" and not a.get("inner"))]
        if self.S.kind(ty) == "struct" and self.u.find_class(ty) is not None:
            if any(a["kind"] == "CXXDefaultArgExpr" and not self.kids(a) for a in args):
                q = n.get("ctorType", {}).get("qualType", "")
                for m in self.ctors(self.u.find_class(ty)):
                    if m["type"]["qualType"].split(" noexcept")[0] == q.split(" noexcept")[0]:
                        args = self.fill_defaults(args, m)
                        break
            return self.evs(args, st, lambda s, vs: self.construct(s, ty, n.get("ctorType", {}).get("qualType"), vs, at, n))
        if len(args) == 1 and args[0]["kind"] == "CXXStdInitializerListExpr":
            pass
        return self.evs(args, st, lambda s, vs: self.std.construct(s, ty, vs, n, at))

    def ctors(self, cls):
        return [m for m in self.u.methods(cls) if m["kind"] == "CXXConstructorDecl"]

    def construct(self, st, ty, ctype, args, at=None, n=None):
        """user class.  at: Path of an existing (derived) object for base/delegating construction"""
        cls = self.u.find_class(ty)
        want = None
        if ctype is not None:
            ft = self.u.types.parse(ctype)
            want = [str(a) for a in ft.args[1:]] if ft.k == "fn" else None
        cands = []
        for m in self.ctors(cls):
            p = m.get("_parent")
            if p is not None and p.get("kind") == "FunctionTemplateDecl":
                first = next((c for c in p.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"), None)
                if first is m:
                    continue
            ps = [str(self.ty(x)) for x in self.u.params(m)]
            if ctype is not None and m["type"]["qualType"].split(" noexcept")[0] == ctype.split(" noexcept")[0]:
                cands.insert(0, m)
            elif want is None or ps == want:
                if want is not None or len(ps) == len(args):
                    cands.append(m)
        if not cands:
            if want is not None and len(want) == 1 and len(args) == 1:      # implicit copy/move
                return self.copy_obj(st, ty, args[0], at)
            if (want is not None and not want) or (want is None and not args):
                return self.default_construct(st, ty, at)
            raise Unsupported("constructor %s of %s" % (ctype, ty))
        m = cands[0]
        d = self.u.definition(m)
        h = self.contracts.get(m["_qn"])
        if h is not None:
            r = h(self, m, st, at, args)
            if r is not None:
                return r
        ps = [str(self.ty(x).strip()) for x in self.u.params(m)]
        if d is None or (d.get("explicitlyDefaulted") == "default" and self.u.body(d) is None) or d.get("isImplicit") and self.u.body(d) is None:
            if len(ps) == 1 and len(args) == 1:
                return self.copy_obj(st, ty, args[0], at)
            if not ps:
                return self.default_construct(st, ty, at)
            inh = self.inherited_ctor(cls, m, args, st, ty, at)
            if inh is not None:
                return inh
            raise Unsupported("constructor without body %s" % self.u.sig(m))
        return self.run_ctor(st, ty, d, args, at)

    def inherited_ctor(self, cls, m, args, st, ty, at):
        for b in self.u.bases(cls):
            bc = self.u.find_class(b)
            if bc is None:
                continue
            want = [str(self.ty(x)) for x in self.u.params(m)]
            for c in self.ctors(bc):
                if [str(self.ty(x)) for x in self.u.params(c)] == want:
                    if at is None:
                        st, p = self.alloc(st, self.blank(st, ty), "obj")
                        outs = self.construct(st, b, None if c["type"]["qualType"] is None else c["type"]["qualType"], args, p)
                        return then(outs, lambda s, v: val(s, self.read(s, p)))
                    return self.construct(st, b, c["type"]["qualType"], args, at)
        return None

    def copy_obj(self, st, ty, src, at):
        v = self.load(st, src)
        if isinstance(v, Path):
            v = self.load(st, v)
        if not isinstance(v, St):
            raise Unsupported("copy of %r" % (v,))
        names = [f for f, _ in self.S.fields(ty)]
        if at is None:
            return val(st, St(ty, {f: v.f[f] for f in names}))
        s = st
        for f in names:
            s = self.write(s, at + ("f", f), v.f[f])
        return val(s, None)

    def blank(self, st, ty):
        f = {}
        for n, t, node in self.u.fields(self.u.find_class(ty)):
            try:
                f[n] = self.S.fresh(t)
            except Unsupported:
                f[n] = Opaque("uninit")
        return St(ty, f)

    def field_init(self, node):
        """in-class initialiser expression of a FieldDecl"""
        if node is None or not node.get("hasInClassInitializer"):
            return None
        ks = [c for c in self.kids(node) if not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        return ks[-1] if ks else None

    def default_construct(self, st, ty, at=None):
        if at is None:
            s, p = self.alloc(st, self.blank(st, ty), "obj")
            return then(self.init_members(s, ty, p, {}, None), lambda s2, v: val(s2, self.read(s2, p)))
        return self.init_members(st, ty, at, {}, None)

    def value_init(self, ty, st):
        if self.S.kind(ty) == "struct":
            return self.construct(st, ty, None, [])
        return val(st, self.S.default(ty))

    def init_members(self, st, ty, at, inits, ctor):
        """bases then members, in declaration order; inits: name -> expr, 'base:T' -> expr"""
        cls = self.u.find_class(ty)
        outs = val(st)
        for b in self.u.bases(cls):
            e = inits.get("base:" + str(b))

            def fb(s, _, b=b, e=e):
                if e is not None and strip_pass(e)["kind"] == "CXXInheritedCtorInitExpr":
                    args = []
                    for q in self.u.params(ctor):
                        x = s.env.get(q["id"])
                        if x is None:
                            raise Unsupported("inherited constructor argument")
                        args.append(x if self.ty(q).k == "ref" else self.read(s, x))
                    if self.u.find_class(b) is None:
                        return then(self.std.construct(s, b, args, None), lambda s2, v: val(self.write(s2, at + ("f", "$span"), v) if "$span" in self.read(s2, at).f else s2))
                    want = [str(self.ty(x)) for x in self.u.params(ctor)]
                    for q in self.ctors(self.u.find_class(b)):
                        if [str(self.ty(x)) for x in self.u.params(q)] == want:
                            return self.construct(s, b, q["type"]["qualType"], args, at)
                    raise Unsupported("inherited constructor")
                if self.u.find_class(b) is None:
                    if e is None:
                        return val(s)
                    return then(self.ev(e, s), lambda s2, v: val(self.write(s2, at + ("f", "$span"), v) if "$span" in self.read(s2, at).f else s2))
                if e is None:
                    return self.default_construct_base(s, b, at)
                return self.base_init(s, e, b, at)
            outs = then(outs, fb)
        for f in cls.get("inner", ()):
            if f.get("kind") != "FieldDecl":
                continue
            nm = f.get("name") or "$anon%s" % f["id"]
            e = inits.get(nm)
            if e is None or (strip_pass(e)["kind"] == "CXXDefaultInitExpr" and not self.kids(strip_pass(e))):
                e = self.field_init(f)
                if e is None and f.get("hasInClassInitializer"):
                    raise Unsupported("initialiser of member %s not instantiated" % nm)
            ft = self.ty(f)

            def ff(s, _, nm=nm, e=e, ft=ft):
                if e is None:
                    if self.S.kind(ft) in ("struct",):
                        return then(self.construct(s, ft, None, []), lambda s2, v: val(self.write(s2, at + ("f", nm), v)))
                    if self.S.kind(ft) in ("seq", "map", "any", "str", "fn", "opt", "var", "tup") and ft.k == "named":
                        return val(self.write(s, at + ("f", nm), self.S.default(ft)))
                    return val(s)
                s1 = s.copy()
                s1.this = at
                return then(self.ev(e, s1), lambda s2, v: val(self.write(s2, at + ("f", nm), self.init_value(s2, v, ft))))
            outs = then(outs, ff)
        return outs

    def init_value(self, s, v, ft):
        if ft.k in ("ref", "ptr"):
            return v
        if isinstance(v, Path):
            if self.S.kind(ft) == "ptr":
                return v
            return self.read(s, v)
        if v is None:
            return self.S.fresh(ft)
        return v

    def default_construct_base(self, s, b, at):
        cls = self.u.find_class(b)
        if any(not self.u.params(m) for m in self.ctors(cls)):
            return self.construct(s, b, "void ()", [], at)
        return self.default_construct(s, b, at)

    def base_init(self, s, e, b, at):
        while e["kind"] in PASS:
            e = self.kids(e)[0]
        s1 = s.copy()
        s1.this = at
        if e["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct_expr(e, s1, at)
        if e["kind"] == "CXXInheritedCtorInitExpr":
            raise Unsupported("inherited ctor init")
        if e["kind"] == "InitListExpr":
            def f(s2, v):
                for k, x in v.f.items():
                    s2 = self.write(s2, at + ("f", k), x)
                return val(s2)
            return then(self.ev(e, s1), f)
        raise Unsupported("base initialiser %s" % e["kind"])

    def run_ctor(self, st, ty, d, args, at):
        top = at is None
        caller = st
        s = st
        if top:
            s, at = self.alloc(s, self.blank(s, ty), "obj")
        s = self.enter(s, d, at)
        s = self.bind_params(s, d, args)
        inits, deleg = {}, None
        for c in d.get("inner", ()):
            if c.get("kind") == "CXXCtorInitializer":
                ks = self.kids(c)
                e = ks[0] if ks else None
                if "anyInit" in c:
                    inits[c["anyInit"].get("name") or "$anon%s" % c["anyInit"]["id"]] = e
                elif "baseInit" in c:
                    b = self.u.types.parse(c["baseInit"].get("desugaredQualType") or c["baseInit"]["qualType"])
                    inits["base:" + str(b)] = e
                else:
                    deleg = e
        if deleg is not None:
            e = deleg
            while e["kind"] in PASS:
                e = self.kids(e)[0]
            outs = self.construct_expr(e, s, at)
        else:
            outs = self.init_members(s, ty, at, inits, d)
        body = self.u.body(d)

        def run(s2, _):
            s2 = s2.copy()
            s2.this = at
            r = []
            for o in self.stmt(body, s2):
                if o.k in ("next", "ret"):
                    r += val(self.leave(o.st, caller), self.read(o.st, at) if top else None)
                else:
                    r.append(Out(self.leave(o.st, caller), o.k, o.v))
            return r
        return then(outs, run)

    def x_InitListExpr(self, n, st):
        ty = self.ty(n).strip()
        ks = self.kids(n)
        k = self.S.kind(ty)
        if k == "struct":
            cls = self.u.find_class(ty)
            fs = [(f.get("name") or "$anon%s" % f["id"], self.ty(f), f) for f in cls.get("inner", ()) if f.get("kind") == "FieldDecl"]
            bs = [b for b in self.u.bases(cls)]

            def f(s, vs):
                d = {}
                i = 0
                for b in bs:
                    if i < len(vs):
                        bv = self.load(s, vs[i])
                        if isinstance(bv, St):
                            d.update(bv.f)
                        i += 1
                for nm, ft, node in fs:
                    if i < len(vs):
                        d[nm] = self.init_value(s, vs[i], ft)
                        i += 1
                    else:
                        d[nm] = self.S.default(ft)
                return val(s, St(ty, d))
            return self.evs(ks, st, f)
        if k == "seq":
            if "array_filler" in n:
                pass
            ks2 = ks
            if ty.name == "std::array" and len(ks) == 1 and ks[0]["kind"] == "InitListExpr":
                ks2 = self.kids(ks[0])

            def f(s, vs):
                return val(s, self.seq_of(s, self.S.elem(ty), vs, ty))
            return self.evs(ks2, st, f)
        if len(ks) == 1:
            return self.ev(ks[0], st)
        if not ks:
            return val(st, self.S.default(ty))
        if k in ("tup",):
            return self.evs(ks, st, lambda s, vs: val(s, St(ty, {nm: self.init_value(s, v, t) for (nm, t), v in zip(self.S.tup_fields(ty), vs)})))
        raise Unsupported("init list of %s" % ty)

    def seq_of(self, s, ety, vs, ty=None):
        es = self.S.sort(ety)
        if ty is not None and (ty.k == "arr" or ty.name == "std::array"):
            n = int(str(ty.args[1]) if ty.name == "std::array" else (ty.name or "0"))
            arr = z3.K(I, self.S.pack(self.S.default(ety), ety)) if len(vs) < n else z3.Const("emptyarr<%s>" % es, z3.ArraySort(I, es))
        else:
            n = len(vs)
            arr = z3.Const("emptyarr<%s>" % es, z3.ArraySort(I, es))
        for i, v in enumerate(vs):
            arr = z3.Store(arr, iv(i), self.S.pack(self.init_value(s, v, ety), ety))
        return SeqV(ety, iv(n), arr)

    def x_CXXStdInitializerListExpr(self, n, st):
        return self.ev(self.kids(n)[0], st)

    def x_CXXParenListInitExpr(self, n, st):
        return self.x_InitListExpr(n, st)

    # ------------------------------------------------------------------ calls
    def enter(self, st, d, this, caps=None):
        s = st.copy()
        s.depth = st.depth + 1
        if s.depth > MAXDEPTH:
            raise Unsupported("call depth")
        s.env = {}
        s.this = this
        s.caps = caps
        s.exc = None
        s.fn = d
        self.used[self.u.sig(d) if d.get("_qn") else "lambda@" + str(self.u.loc(d))] = self.u.loc(d)
        return s

    def leave(self, st, caller):
        s = st.copy()
        s.depth, s.env, s.this, s.caps, s.exc, s.fn = caller.depth, caller.env, caller.this, caller.caps, caller.exc, caller.fn
        return s

    def bind_params(self, s, d, args):
        ps = self.u.params(d)
        s = s.copy()
        s.env = dict(s.env)
        for i, p in enumerate(ps):
            t = self.ty(p)
            if i < len(args):
                v = args[i]
            else:
                init = self.var_init(p)
                if init is None:
                    raise Unsupported("missing argument %s" % p.get("name"))
                o = self.ev(init, s)
                if len(o) != 1 or o[0].k != "v":
                    raise Unsupported("default argument")
                env = s.env
                s = o[0].st.copy()
                v = o[0].v
            if t.k == "ref":
                if not isinstance(v, Path):
                    r = fresh_name("arg_" + str(p.get("name")))
                    s.store[r] = v
                    v = Path(r)
                s.env[p["id"]] = v
            else:
                if isinstance(v, Path) and t.k != "ptr" and self.S.kind(t) != "ptr":
                    v = self.read(s, v)
                r = fresh_name("par_" + str(p.get("name")))
                s.store[r] = v
                s.env[p["id"]] = Path(r)
        return s

    def call(self, st, d0, this, args):
        """call a user function (decl), this = Path or None"""
        d = self.u.definition(d0)
        h = self.contracts.get(d0.get("_qn"))
        if h is not None:
            r = h(self, d or d0, st, this, args)
            if r is not None:
                return r
        if d is None:
            raise Unsupported("no body for %s" % (d0.get("_qn") or d0.get("name")))
        if self.u.body(d) is None:
            if d.get("explicitlyDefaulted") and d["name"] == "operator=":
                return self.std.assign(st, this, args[0])
            if d["name"] == "operator==":
                return val(st, self.deep_eq(self.read(st, this), self.load(st, args[0])))
            raise Unsupported("no body for %s" % d.get("_qn"))
        s = self.enter(st, d, this)
        s = self.bind_params(s, d, args)
        return self.finish(st, s, self.u.body(d), d)

    def finish(self, caller, s, body, d):
        r = []
        for o in self.stmt(body, s):
            if o.k == "ret":
                r.append(Out(self.leave(o.st, caller), "v", o.v))
            elif o.k == "next":
                r.append(Out(self.leave(o.st, caller), "v", None))
            else:
                r.append(Out(self.leave(o.st, caller), o.k, o.v))
        return r

    def deep_eq(self, a, b):
        if isinstance(a, St) and isinstance(b, z3.ExprRef):
            b = self.S.unpack(b, a.cls)
        if isinstance(b, St) and isinstance(a, z3.ExprRef):
            a = self.S.unpack(a, b.cls)
        if isinstance(a, St):
            return z3.And(*[self.deep_eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a == b
        if isinstance(a, SeqV):
            t = z3.Int(fresh_name("t"))
            return z3.And(a.n == b.n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < a.n), z3.Select(a.arr, t) == z3.Select(b.arr, t))))
        if isinstance(a, MapV):
            t = z3.Const(fresh_name("t"), a.dom.sort().domain())
            return z3.ForAll([t], z3.And(a.dom[t] == b.dom[t], z3.Implies(a.dom[t], a.val[t] == b.val[t])))
        if isinstance(a, VarV):
            cs = [a.idx == b.idx]
            for i in range(len(a.tys)):
                cs.append(z3.Implies(a.idx == i, self.deep_eq(a.vals[i], b.vals[i])))
            return z3.And(*cs)
        if isinstance(a, OptV):
            return z3.And(a.has == b.has, z3.Implies(a.has, self.deep_eq(a.v, b.v)))
        if isinstance(a, Path) and isinstance(b, Path):
            return self.path_eq(a, b)
        if isinstance(a, SpanV) and isinstance(b, SpanV):
            return z3.And(self.path_eq(a.base, b.base), a.off == b.off, a.n == b.n)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what and a.what.startswith("object Kokkos::"):
            self.trusted.add("Kokkos: two handles of the default instance of one execution space compare equal")
            return z3.BoolVal(True)
        raise Unsupported("equality of %r" % (type(a).__name__,))

    def call_value(self, st, f, args):
        """call a callable value"""
        if isinstance(f, Path):
            f = self.read(st, f)
        if isinstance(f, PyFn):
            return f.f(st, args)
        if isinstance(f, FnPtr):
            d = f.decl
            if d.get("_qn") or self.u.definition(d) is not None:
                return self.call(st, d, None, args)
            raise Unsupported("call of external function pointer %s" % d.get("name"))
        if isinstance(f, ClosV):
            return self.call_closure(st, f, args)
        if isinstance(f, z3.ExprRef) and f.sort().eq(Fn):
            r = self.S.fns.get(simp(f).get_id())
            if r:
                return self.call_value(st, r[0], args)
            h = self.contracts.get("std::function")
            if h is not None:
                return h(self, f, st, None, args)
            raise Unsupported("call of unknown std::function")
        if isinstance(f, St):
            cls = self.u.find_class(f.cls)
            ms = [m for m in self.u.methods(cls) if m.get("name") == "operator()" and self.u.definition(m) is not None and not self.u.is_dependent(m)]
            if len(ms) == 1:
                s, p = self.alloc(st, f, "functor")
                return self.call(s, ms[0], p, args)
        raise Unsupported("call of %r" % (f,))

    def clos_op(self, f, args, st=None, decl=None):
        ops = []
        for m in f.cls.get("inner", ()):
            if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                ops.append(m)
            elif m.get("kind") == "FunctionTemplateDecl" and m.get("name") == "operator()":
                cs = [c for c in m.get("inner", ()) if c.get("kind") == "CXXMethodDecl"]
                ops += [c for c in cs[1:]]
        if decl is not None:
            for o in ops:
                if o["id"] == decl:
                    return o
        ops = [o for o in ops if len(self.u.params(o)) == len(args)] or ops
        if len(ops) == 1:
            return ops[0]
        # choose by the first argument's class
        for o in ops:
            ok = True
            for p, a in zip(self.u.params(o), args):
                v = self.load(st, a)
                t = self.ty(p).strip()
                if isinstance(v, St) and str(v.cls) != str(t):
                    ok = False
                if isinstance(v, Opaque) and v.extra is not None and str(v.extra) != str(t):
                    ok = False
                if isinstance(v, z3.ExprRef) and self.S.kind(t) in ("int", "real", "bool", "str") and not v.sort().eq(self.S.sort(t)):
                    ok = False
                if isinstance(v, z3.ExprRef) and self.S.kind(t) in ("struct",):
                    ok = False
            if ok:
                return o
        raise Unsupported("ambiguous lambda call operator")

    def call_closure(self, st, f, args, decl=None):
        op = self.clos_op(f, args, st, decl)
        if self.u.body(op) is None:
            # body of a non-generic lambda hangs off the LambdaExpr
            body = next((c for c in self.kids(f.node) if c["kind"] == "CompoundStmt"), None)
        else:
            body = self.u.body(op)
        if body is None:
            raise Unsupported("lambda without body")
        s = self.enter(st, op, f.this, dict(f.caps))
        s = self.bind_params(s, op, args)
        return self.finish(st, s, body, op)

    def x_CallExpr(self, n, st):
        ks = self.kids(n)
        callee, args = ks[0], ks[1:]
        fn = find_callee(callee)
        if fn is not None:
            d = fn["referencedDecl"]
            ud = self.u.byid.get(d["id"])
            if ud is not None and ud.get("_qn") and not (fn["kind"] == "DeclRefExpr" and d["kind"] in ("VarDecl", "ParmVarDecl")):
                args = self.fill_defaults(args, ud)
                return self.evs(args, st, lambda s, vs: self.call(s, ud, None, vs))
            if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.std.call(n, d, fn, args, st)

        def f(s, vs):
            return self.call_value(s, vs[0], vs[1:])
        return self.evs([callee] + args, st, f)

    def fill_defaults(self, args, d):
        """CXXDefaultArgExpr carries no expression in the dump of clang 18: use the parameter's initialiser"""
        out = []
        ps = self.u.params(d)
        for i, a in enumerate(args):
            if a["kind"] == "CXXDefaultArgExpr" and not self.kids(a):
                e = None
                dd = d
                cands = [d, self.u.definition(d)]
                for q in self.u.functions.get(d.get("_qn"), ()):
                    if len(self.u.params(q)) == len(ps):
                        cands.append(q)
                for c in cands:
                    if c is not None and i < len(self.u.params(c)):
                        e = e or self.var_init(self.u.params(c)[i])
                if e is None:
                    raise Unsupported("default argument of %s" % d.get("_qn"))
                out.append(e)
            else:
                out.append(a)
        return out

    def default_arg(self, st, d, i):
        """the value of the default argument of parameter i"""
        e = None
        ps = self.u.params(d)
        for q in [d, self.u.definition(d)] + list(self.u.functions.get(d.get("_qn"), ())):
            if q is not None and len(self.u.params(q)) == len(ps):
                e = e or self.var_init(self.u.params(q)[i])
        if e is None:
            raise Unsupported("default argument of %s" % d.get("_qn"))
        o = self.ev(e, st)
        if len(o) != 1 or o[0].k != "v":
            raise Unsupported("default argument")
        return o[0].st, self.load(o[0].st, o[0].v)

    def x_CXXMemberCallExpr(self, n, st):
        ks = self.kids(n)
        me, args = ks[0], ks[1:]
        while me["kind"] in PASS:
            me = self.kids(me)[0]
        if me["kind"] != "MemberExpr":
            if me["kind"] == "BinaryOperator":
                raise Unsupported("pointer to member")
            raise Unsupported("member call via %s" % me["kind"])
        md = self.u.byid.get(me.get("referencedMemberDecl"))
        b = self.kids(me)[0]
        if md is not None and md.get("_qn"):
            args = self.fill_defaults(args, md)
            nonvirt = is_base_qualified(me, self.kids(me)[0])

            def f(s, vs):
                return self.method_call(s, vs[0], md, vs[1:], me)
            return self.evs([b] + args, st, f)

        def g(s, vs):
            return self.std.method(s, me["name"], vs[0], vs[1:], n, self.ty(b).strip(), [self.ty(a) for a in args])
        return self.evs([b] + [a for a in args if not (a["kind"] == "CXXDefaultArgExpr" and not self.kids(a))], st, g)

    def method_call(self, s, obj, md, args, me=None):
        if obj is NULL:
            raise Unsupported("null dereference in call")
        if isinstance(obj, ItV):
            obj = self.std.deref(s, obj)
        if not isinstance(obj, Path):
            s, obj = self.alloc(s, obj, "tmpobj")
        if obj.steps and obj.steps[-1][0] == "own":
            try:
                obj = self.resolve_own(s, obj)
            except Unsupported:
                h = self.abstract_impl.get(md["_qn"])
                if h is not None:
                    return h(self, md, s, obj, args)
                raise
        v = None
        if md.get("storageClass") == "static":
            return self.call(s, md, None, args)
        v = self.read(s, obj)
        if isinstance(v, Path):
            obj, v = v, self.read(s, v)
        if isinstance(v, ClosV):
            return self.call_closure(s, v, args, md["id"])
        d = md
        if self.is_virtual(md) and isinstance(v, St) and not (me is not None and me.get("hadQualifier")):
            d = self.overrider(v.cls, md) or md
        if isinstance(v, SpanV):
            pass
        return self.call(s, d, obj, args)

    def is_virtual(self, md):
        if md.get("virtual"):
            return True
        for c in md.get("inner", ()):
            if c.get("kind") in ("OverrideAttr", "FinalAttr"):
                return True
        c = md.get("_class")
        return c is not None and self._overrides_virtual(c, md)

    def _overrides_virtual(self, c, md):
        for b in self.u.bases(c):
            bc = self.u.find_class(b)
            if bc is None:
                continue
            for m in self.u.methods(bc):
                if m.get("name") == md.get("name") and m.get("virtual") and self.same_sig(m, md):
                    return True
            if self._overrides_virtual(bc, md):
                return True
        return False

    def same_sig(self, a, b):
        return [str(self.ty(p)) for p in self.u.params(a)] == [str(self.ty(p)) for p in self.u.params(b)] and self.u.is_const(a) == self.u.is_const(b)

    def overrider(self, cty, md):
        cls = self.u.find_class(cty)
        if cls is None:
            return None
        if md.get("kind") == "CXXDestructorDecl":
            return None
        for m in self.u.methods(cls):
            if m.get("name") == md.get("name") and m["kind"] == md["kind"] and self.same_sig(m, md):
                return m
        for b in self.u.bases(cls):
            r = self.overrider(b, md)
            if r is not None:
                return r
        return None

    def x_CXXOperatorCallExpr(self, n, st):
        ks = self.kids(n)
        fn = find_callee(ks[0])
        args = ks[1:]
        if fn is None:
            raise Unsupported("operator call")
        d = fn["referencedDecl"]
        ud = self.u.byid.get(d["id"])
        if ud is not None and ud.get("_qn") is not None:
            def f(s, vs):
                if ud["kind"] == "CXXMethodDecl":
                    obj = vs[0]
                    o = self.load(s, obj)
                    if isinstance(o, ClosV):
                        return self.call_closure(s, o, vs[1:], ud["id"])
                    return self.method_call(s, obj, ud, vs[1:])
                return self.call(s, ud, None, vs)
            # assignment evaluates right before left
            args2 = self.fill_defaults(args, ud) if ud["kind"] != "CXXMethodDecl" else args
            if d.get("name") == "operator=":
                return self.evs(args2[::-1], st, lambda s, vs: f(s, vs[::-1]))
            return self.evs(args2, st, f)
        if d.get("name") == "operator<<" or d.get("name") == "operator=":
            if d.get("name") == "operator=":
                return self.evs(args[::-1], st, lambda s, vs: self.std.operator(s, d["name"], vs[::-1], n, args))
        return self.evs(args, st, lambda s, vs: self.std.operator(s, d["name"], vs, n, args))

    # ------------------------------------------------------------------ statements
    def stmt(self, n, st):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st)
        r = []
        for o in self.ev(n, st):
            r.append(Out(o.st, "next") if o.k == "v" else o)
        return r

    def s_CompoundStmt(self, n, st):
        cur = [st]
        done = []
        for c in self.kids(n):
            nxt = []
            for s in cur:
                for o in self.stmt(c, s):
                    if o.k == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = nxt
            if len(cur) > MAXPATHS:
                raise Unsupported("too many paths")
            if not cur:
                break
        return done + [Out(s, "next") for s in cur]

    def s_NullStmt(self, n, st):
        return [Out(st, "next")]

    def s_AttributedStmt(self, n, st):
        return self.stmt(self.kids(n)[-1], st)

    def s_DeclStmt(self, n, st):
        outs = [Out(st, "next")]
        for d in self.kids(n):
            r = []
            for o in outs:
                r += self.decl(d, o.st) if o.k == "next" else [o]
            outs = r
        return outs

    def decl(self, d, st):
        k = d["kind"]
        if k in ("VarDecl", "DecompositionDecl"):
            if d.get("storageClass") == "static" or d.get("tls"):
                return [Out(o.st.bind(d["id"], o.v), "next") if o.k == "v" else o for o in self.static_var(d, st)]
            t = self.ty(d)
            e = self.var_init(d)
            if e is None:
                if self.S.kind(t) == "opaque":
                    v = Opaque("local " + str(t))
                else:
                    v = self.S.fresh(t)
                s, p = self.alloc(st, v, d.get("name") or "v")
                return [Out(s.bind(d["id"], p), "next")]

            def f(s, v):
                if t.k == "ref":
                    if not isinstance(v, Path):
                        if isinstance(v, ItV):
                            s, v = self.alloc(s, v, "tmp")
                        else:
                            s, v = self.alloc(s, v, "tmp")
                    p = v
                else:
                    if isinstance(v, Path) and t.k not in ("ptr", "auto") and self.S.kind(t) not in ("ptr",):
                        if d["kind"] == "DecompositionDecl" or self.S.kind(t) != "opaque" or not isinstance(v, Path):
                            v = self.read(s, v)
                    s, p = self.alloc(s, v, d.get("name") or "v")
                s = s.bind(d["id"], p)
                if k == "DecompositionDecl":
                    s = self.bindings(d, s, p)
                return [Out(s, "next")]
            r = []
            for o in self.ev(e, st):
                r += f(o.st, o.v) if o.k == "v" else [o]
            return r
        if k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl", "EmptyDecl", "EnumDecl", "NamespaceAliasDecl", "UsingEnumDecl"):
            return [Out(st, "next")]
        raise Unsupported("declaration " + k)

    def bindings(self, d, s, p):
        bs = [c for c in d.get("inner", ()) if c.get("kind") == "BindingDecl"]
        if p.steps and p.steps[-1][0] == "ent":
            m = self.read(s, Path(p.root, p.steps[:-1]))
            s, kp = self.alloc(s, self.S.unpack(p.steps[-1][1], m.kty), "key")
            s = s.bind(bs[0]["id"], kp)
            return s.bind(bs[1]["id"], Path(p.root, p.steps[:-1] + (("k", p.steps[-1][1]),)))
        v = self.read(s, p)
        if isinstance(v, Path):
            p, v = v, self.read(s, v)
        if isinstance(v, St):
            names = list(v.f)
            if len(names) != len(bs):
                raise Unsupported("structured binding arity")
            for b, nm in zip(bs, names):
                x = v.f[nm]
                s = s.bind(b["id"], x if isinstance(x, Path) and self.is_ref_slot(v.cls, nm) else p + ("f", nm))
            return s
        if isinstance(v, SeqV):
            for i, b in enumerate(bs):
                s = s.bind(b["id"], p + ("i", iv(i)))
            return s
        raise Unsupported("structured binding of %r" % (type(v).__name__,))

    def is_ref_slot(self, cls, nm):
        try:
            fs = self.S.tup_fields(cls) if cls.name in ("std::pair", "std::tuple") else self.S.fields(cls)
        except Exception:
            return False
        for f, t in fs:
            if f == nm:
                return t.k == "ref"
        return False

    def s_ReturnStmt(self, n, st):
        ks = self.kids(n)
        if not ks:
            return [Out(st, "ret", None)]
        rt = None
        if st.fn is not None:
            q = st.fn["type"]["qualType"]
        r = []
        for o in self.ev(ks[0], st):
            if o.k == "v":
                v = o.v
                r.append(Out(o.st, "ret", v))
            else:
                r.append(o)
        return r

    def s_IfStmt(self, n, st):
        ks = self.kids(n)
        pre = []
        if n.get("hasInit"):
            pre.append(ks.pop(0))
        if n.get("hasVar"):
            pre.append(ks.pop(0))
        outs = [Out(st, "next")]
        for p in pre:
            r = []
            for o in outs:
                r += self.stmt(p, o.st) if o.k == "next" else [o]
            outs = r
        cond, a = ks[0], ks[1]
        b = ks[2] if len(ks) > 2 else None
        res = []
        for o in outs:
            if o.k != "next":
                res.append(o)
                continue
            for c in self.ev(cond, o.st):
                if c.k != "v":
                    res.append(c)
                    continue
                res += self.fork(c.st, self.boolv(c.v), lambda s: self.stmt(a, s),
                                 lambda s: self.stmt(b, s) if b is not None else [Out(s, "next")])
        return res

    def s_BreakStmt(self, n, st):
        return [Out(st, "brk")]

    def s_ContinueStmt(self, n, st):
        return [Out(st, "cont")]

    def s_CXXTryStmt(self, n, st):
        ks = self.kids(n)
        res = []
        for o in self.stmt(ks[0], st):
            if o.k != "thr":
                res.append(o)
                continue
            res += self.handle(o, ks[1:], st)
        return res

    def handle(self, o, catches, outer):
        ety, ev = o.v
        for c in catches:
            cs = self.kids(c)
            var = next((x for x in cs if x["kind"] == "VarDecl"), None)
            body = next((x for x in cs if x["kind"] == "CompoundStmt"), None)
            if var is not None:
                ct = self.ty(var).strip()
                m = self.exc_match(ety, ct)
                if m is None:
                    raise Unsupported("catch of %s for %s" % (ct, ety))
                if not m:
                    continue
            s = o.st.copy()
            saved = s.exc
            s.env = {**outer.env, **{}}
            s.this, s.caps = outer.this, outer.caps
            s.exc = o.v
            if var is not None:
                s, p = self.alloc(s, ev if ev is not None else Opaque("exception"), "exc")
                s = s.bind(var["id"], p)
            r = []
            for q in self.stmt(body, s):
                t = q.st.copy()
                t.exc = saved
                r.append(Out(t, q.k, q.v))
            return r
        return [o]

    def exc_match(self, ety, cty):
        if str(ety) == str(cty):
            return True
        e = ety.name
        seen = 0
        if ety.k in ("int", "bool", "real") and cty.k in ("int", "bool", "real", "named"):
            return False
        if ety.k == "named" and cty.k in ("int", "bool", "real", "ptr"):
            return False
        while e is not None and seen < 10:
            if e == cty.name:
                return True
            if e in EXC_BASES:
                e = EXC_BASES[e]
            else:
                c = self.u.find_class(Ty("named", e))
                if c is None:
                    return None
                bs = self.u.bases(c)
                e = bs[0].name if bs else None
            seen += 1
        return False

    def s_ForStmt(self, n, st):
        return self.loops.for_stmt(n, st)

    def s_WhileStmt(self, n, st):
        return self.loops.while_stmt(n, st)

    def s_DoStmt(self, n, st):
        return self.loops.do_stmt(n, st)

    def s_CXXForRangeStmt(self, n, st):
        return self.loops.for_range(n, st)

    def s_SwitchStmt(self, n, st):
        ks = self.kids(n)
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("switch with init")
        res = []
        for o in self.ev(ks[0], st):
            if o.k != "v":
                res.append(o)
                continue
            labels = []   # (value or None, stmts)
            flat = []
            for c in self.kids(ks[1]):
                vals = []
                while c["kind"] in ("CaseStmt", "DefaultStmt"):
                    cs = self.kids(c)
                    if c["kind"] == "CaseStmt":
                        vals.append(find_value(cs[0]))
                        c = cs[-1]
                    else:
                        vals.append("default")
                        c = cs[-1]
                flat.append((vals, c))
            allv = [v for vs, _ in flat for v in vs if v != "default"]
            if any(v is None for v in allv):
                raise Unsupported("switch label")

            def run(s, i):
                cur = [s]
                done = []
                for _, c in flat[i:]:
                    nx = []
                    for q in cur:
                        for r in self.stmt(c, q):
                            if r.k == "next":
                                nx.append(r.st)
                            elif r.k == "brk":
                                done.append(Out(r.st, "next"))
                            else:
                                done.append(r)
                    cur = nx
                return done + [Out(q, "next") for q in cur]
            s = o.st
            dflt = None
            for i, (vs, _) in enumerate(flat):
                for v in vs:
                    if v == "default":
                        dflt = i
                        continue
                    a = s.assume(o.v == v)
                    if self.feasible(a):
                        res += run(a, i)
                    s = s.assume(o.v != v)
            if self.feasible(s):
                res += run(s, dflt) if dflt is not None else [Out(s, "next")]
        return res


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def strip_pass(e):
    while e["kind"] in PASS:
        e = [c for c in e.get("inner", ()) if isinstance(c, dict) and c.get("kind")][0]
    return e


def find_kind(n, kinds):
    if n.get("kind") in kinds:
        return n
    for c in n.get("inner", ()):
        if isinstance(c, dict):
            r = find_kind(c, kinds)
            if r is not None:
                return r
    return None


def find_callee(n):
    while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"):
        n = n["inner"][0]
    return n if n["kind"] == "DeclRefExpr" else None


def find_value(n):
    if "value" in n and n["kind"] in ("ConstantExpr", "IntegerLiteral"):
        try:
            return int(n["value"])
        except Exception:
            return None
    for c in n.get("inner", ()):
        r = find_value(c)
        if r is not None:
            return r
    return None


def is_base_qualified(me, b):
    return False


_hq = {}


def has_quant(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    st, seen, res = [f], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _hq[i] = (f, res)
    return res


def has_neg(e):
    """could e (a sum) be negative although its variables are >= 0?"""
    if z3.is_int_value(e):
        return e.as_long() < 0
    if z3.is_app_of(e, z3.Z3_OP_UMINUS) or z3.is_app_of(e, z3.Z3_OP_SUB):
        return True
    if z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_MUL):
        return any(has_neg(c) for c in e.children())
    return False
