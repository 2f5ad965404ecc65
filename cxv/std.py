"""Trusted contracts of the C++ standard library functions the code uses (the assumed part of the proof)."""
import re
import z3
from .ast import Ty, Unsupported, INTS
from .sym import *

STRT = Ty("named", "std::string")


class Std:
    def __init__(self, X):
        self.X = X
        self.S = X.S

    def note(self, what):
        self.X.trusted.add(what)

    # ------------------------------------------------------------------ construction
    def construct(self, st, ty, args, n, at=None):
        X, S = self.X, self.S
        k = S.kind(ty)
        nm = ty.name if ty.k == "named" else str(ty)
        self.note("%s::%s" % (nm, nm.split("::")[-1]))
        ck = (n.get("ctorType") or {}).get("qualType", "") if n is not None else ""
        if ty.k == "named" and ty.name.startswith("Kokkos::") and k == "opaque":
            r = X.kokkos.construct(st, ty, args, n)
            if r is not None:
                return r
        ld = [X.load(st, a) for a in args]
        if ty.k == "named" and ty.name.startswith("std::") and self.is_exc(ty):
            return val(st, Opaque("exception", ty))
        if not args:
            if k == "opaque":
                return val(st, Opaque("object " + str(ty)))
            return val(st, S.default(ty))
        if k == "str":
            v = ld[0]
            if isinstance(v, z3.ExprRef) and v.sort().eq(Str):
                return val(st, v)
            if isinstance(v, Opaque):
                return val(st, z3.Const(fresh_name("str"), Str))
            raise Unsupported("string constructor")
        if k == "any":
            v = ld[0]
            if ty.name == "std::any":
                if self.is_anyval(v) and self.arg_is(args, n, "std::any"):
                    self.moved(st, args[0], n)
                    return val(st, v)
                return val(st, self.box(st, v, self.argty(n, 0, v)))
            # unique_ptr
            if isinstance(v, Opaque) and v.what == "new":
                return val(st, v.extra)
            if v is NULL or isinstance(v, Opaque):
                return val(st, S.default(ty))
            if self.is_anyval(v):
                s = st
                if isinstance(args[0], Path):
                    s = X.write(st, args[0], S.default(ty))
                return val(s, v)
            raise Unsupported("unique_ptr constructor")
        if k == "fn":
            v = ld[0]
            return val(st, v)
        if k in ("seq", "map"):
            v = ld[0]
            if isinstance(v, (SeqV, MapV)) and len([a for a in args]) == 1 or (isinstance(v, (SeqV, MapV)) and len(args) > 1 and not isinstance(ld[1], z3.ExprRef)):
                if isinstance(v, SeqV) and k == "map":
                    return self.X.loops.map_from_seq(st, S.default(ty), v)
                if isinstance(v, MapV) and k == "map":
                    s = st
                    if "&&" in ck and isinstance(args[0], Path):
                        s = X.write(st, args[0], S.fresh(ty))
                    return val(s, MapV(v.kty, v.vty, v.dom, v.val, ty.name[5:]))
                s = st
                if "&&" in ck and isinstance(args[0], Path) and "initializer_list" not in ck:
                    s = X.write(st, args[0], S.default(Ty("named", "std::vector", (v.ety,))))
                return val(s, SeqV(v.ety, v.n, v.arr))
            if k == "seq" and isinstance(v, z3.ExprRef) and v.sort().eq(I):
                ety = S.elem(ty)
                if len(args) > 1 and not isinstance(ld[1], Opaque):
                    e = ld[1]
                    if isinstance(e, z3.ExprRef) or isinstance(e, (St, SeqV, MapV)):
                        return val(st, SeqV(ety, v, z3.K(I, S.pack(e, ety))))
                return then(X.value_init(ety, st), lambda s, e: val(s, SeqV(ety, v, z3.K(I, S.pack(e, ety)))))
            if k == "seq" and isinstance(v, ItV):
                return self.range_copy(st, v, ld[1], S.elem(ty))
            raise Unsupported("container constructor %s %s" % (ty, ck))
        if k == "tup":
            fs = S.tup_fields(ty)
            if len(args) == 1 and isinstance(ld[0], St) and len(fs) != 1:
                return val(st, St(ty, dict(zip([f for f, _ in fs], [self.conv(st, x, t) for x, (_, t) in zip(ld[0].f.values(), fs)]))))
            if len(args) == len(fs):
                return val(st, St(ty, {f: (a if t.k in ("ref", "ptr") else self.conv(st, X.load(st, a), t, lambda v, i=i: self.argty(n, i, v))) for i, (a, (f, t)) in enumerate(zip(args, fs))}))
            if len(args) == 1 and isinstance(ld[0], St):
                return val(st, ld[0])
            raise Unsupported("tuple constructor")
        if k == "opt":
            v = ld[0]
            if isinstance(v, OptV):
                return val(st, v)
            if isinstance(v, Opaque) and "nullopt" in v.what:
                return val(st, S.default(ty))
            return val(st, OptV(ty.args[0], z3.BoolVal(True), v))
        if k == "var":
            v = ld[0]
            if isinstance(v, VarV):
                return val(st, v)
            i = self.alt_of(ty, v, n)
            vals = [S.fresh(t) for t in ty.args]
            vals[i] = v
            return val(st, VarV(list(ty.args), iv(i), vals))
        if k == "atomic":
            return val(st, ld[0])
        if k == "span":
            return self.make_span(st, ty, args, ld)
        if k == "ptr":
            return val(st, args[0])
        if k == "opaque":
            if ty.name.startswith("__gnu") or "iterator" in ty.name or any(isinstance(x, ItV) for x in ld):
                return val(st, ld[0])
            if ty.name == "std::function" or isinstance(ld[0], (ClosV, FnPtr)):
                return val(st, ld[0])
            h = X.contracts.get("construct:" + ty.name)
            if h is not None:
                return h(X, st, ty, args)
            if len(ld) == 1 and isinstance(ld[0], (z3.ExprRef, Opaque, ClosV)):
                if isinstance(ld[0], z3.ExprRef) and not ld[0].sort().eq(S.sort(ty)):
                    return val(st, Opaque("object " + str(ty)))
                return val(st, ld[0])
            return val(st, Opaque("object " + str(ty)))
        if isinstance(ld[0], (ClosV,)):
            return val(st, ld[0])
        raise Unsupported("constructor of %s" % ty)

    def conv(self, st, v, t, ty=None):
        if isinstance(v, z3.ExprRef) and z3.is_int(v) and t.k == "real":
            return z3.ToReal(v)
        if self.S.kind(t) == "any" and t.name == "std::any" and not self.is_anyval(v):
            return self.box(st, v, (ty or self.vty)(v))
        return v

    def is_exc(self, ty):
        from .exec import EXC_BASES
        return ty.name in EXC_BASES

    def is_anyval(self, v):
        return isinstance(v, z3.ExprRef) and v.sort().eq(AnyS)

    def arg_is(self, args, n, nm):
        if n is None:
            return True
        t = self.X.ty(self.X.kids(n)[0]).strip()
        return t.k == "named" and t.name == nm

    def argty(self, n, i, v):
        if n is not None and i < len(self.X.kids(n)):
            t = self.X.ty(self.X.kids(n)[i]).strip()
            return self.decay(t)
        return self.vty(v)

    def decay(self, t):
        if t.k == "arr":
            return Ty("ptr", args=(t.args[0],))
        return t

    def vty(self, v):
        if isinstance(v, St):
            return v.cls
        if isinstance(v, SeqV):
            return Ty("named", "std::vector", (v.ety,))
        raise Unsupported("type of value %r" % (v,))

    def box(self, st, v, ty):
        """std::any holding v of (decayed) type ty"""
        if ty.k == "ptr" and isinstance(v, z3.ExprRef) and v.sort().eq(Str):
            # const char*: tagged as such, payload the string
            inj, proj = z3.Function("inj<cstr>", Str, Pay), z3.Function("proj<cstr>", Pay, Str)
            x = inj(v)
            self.S.fact(proj(x) == v)
            return AnyS.mk_any(self.S.tag(ty), x)
        return self.S.to_any(v, ty)

    def moved(self, st, a, n):
        return st

    def alt_of(self, ty, v, n):
        src = self.X.ty(self.X.kids(n)[0]).strip() if n is not None else None
        for i, t in enumerate(ty.args):
            if src is not None and str(t) == str(src):
                return i
            if src is None and isinstance(v, St) and str(v.cls) == str(t):
                return i
        ks = [i for i, t in enumerate(ty.args) if isinstance(v, z3.ExprRef) and v.sort().eq(self.S.sort(t))]
        if len(ks) == 1:
            return ks[0]
        raise Unsupported("variant alternative for %s" % src)

    def make_span(self, st, ty, args, ld):
        ety = ty.args[0]
        if isinstance(ld[0], SpanV):
            return val(st, SpanV(ld[0].base, ld[0].off, ld[0].n, ety))
        if isinstance(ld[0], SeqV) and len(args) == 1:
            return val(st, SpanV(args[0], iv(0), ld[0].n, ety))
        if len(args) == 2:
            p, b = args
            if isinstance(p, ItV):
                p = self.deref(st, p)
            if p is NULL:
                return val(st, SpanV(Path("nospan"), iv(0), ld[1] if isinstance(ld[1], z3.ExprRef) else iv(0), ety))
            off = iv(0) if p.steps and p.steps[-1][0] == "as" else self.X.off(p)
            base = Path(p.root, p.steps[:-1]) if p.steps and p.steps[-1][0] == "i" else p
            if isinstance(ld[1], z3.ExprRef) and z3.is_int(ld[1]):
                return val(st, SpanV(base, simp(off), ld[1], ety))
            if isinstance(b, Path):
                return val(st, SpanV(base, simp(off), simp(self.X.off(b) - off), ety))
        if len(ld) == 1 and isinstance(ld[0], St) and "$span" in ld[0].f:
            return val(st, ld[0].f["$span"])
        raise Unsupported("span constructor")

    # ------------------------------------------------------------------ assignment
    def assign(self, st, p, src):
        X, S = self.X, self.S
        if isinstance(src, Path):
            v = X.read(st, src)
        else:
            v = src
        old = X.read(st, p)
        if isinstance(old, Path) and not isinstance(v, Path):     # reference slot: assign through
            return self.assign(st, old, src)
        if isinstance(old, St) and isinstance(v, St):
            if set(old.f) != set(v.f):
                w = St(old.cls, {k: v.f.get(k, old.f[k]) for k in old.f})
            else:
                w = St(old.cls, dict(v.f)) if S.kind(old.cls) in ("struct", "tup") else v
            return val(X.write(st, p, w), p)
        if isinstance(old, z3.ExprRef) and isinstance(v, z3.ExprRef) and not old.sort().eq(v.sort()):
            if z3.is_real(old) and z3.is_int(v):
                v = z3.ToReal(v)
            elif self.is_anyval(old):
                raise Unsupported("assignment of a value to std::any without its type")
            else:
                raise Unsupported("assignment sort mismatch %s %s" % (old.sort(), v.sort()))
        if isinstance(old, MapV) and isinstance(v, MapV):
            v = MapV(old.kty, old.vty, v.dom, v.val, old.kind)
        return val(X.write(st, p, v), p)

    # ------------------------------------------------------------------ iterators
    def deref(self, st, it):
        if it.kind == "seq":
            return it.cont + ("i", it.pos)
        if it.kind == "span":
            return it.cont + ("i", it.pos)
        if it.kind == "map":
            if it.end is not None and not z3.is_false(simp(it.end)):
                raise Unsupported("dereference of a possibly-end iterator")
            if it.key is None:
                if it.enum is None or it.pos is None:
                    raise Unsupported("dereference of map iterator of unknown key")
                return it.cont + ("ent", simp(it.enum.key(it.pos)))
            return it.cont + ("ent", it.key)
        raise Unsupported("deref iterator")

    def begin(self, st, p, v):
        if isinstance(v, SeqV):
            return ItV("seq", p, iv(0))
        if isinstance(v, SpanV):
            return ItV("span", v.base, v.off)
        if isinstance(v, MapV):
            return ItV("map", p, iv(0), None, None, self.X.loops.enum(v))
        raise Unsupported("begin of %r" % (v,))

    def end(self, st, p, v):
        if isinstance(v, SeqV):
            return ItV("seq", p, v.n)
        if isinstance(v, SpanV):
            return ItV("span", v.base, simp(v.off + v.n))
        if isinstance(v, MapV):
            return ItV("map", p, None, None, z3.BoolVal(True))
        raise Unsupported("end of %r" % (v,))

    def it_eq(self, a, b):
        if not a.cont.same(b.cont):
            raise Unsupported("comparison of iterators of different containers")
        if a.kind in ("seq", "span"):
            return a.pos == b.pos
        ea = a.end if a.end is not None else None
        eb = b.end if b.end is not None else None
        if ea is None and eb is None or (a.pos is not None and b.pos is not None and a.enum is not None):
            return a.pos == b.pos
        if ea is not None and z3.is_true(ea):
            a, b, ea, eb = b, a, eb, ea
        # b is end()
        if eb is not None and z3.is_true(eb):
            if ea is not None:
                return ea
            m = a.enum
            return a.pos == m.n
        if ea is not None and eb is not None and a.key is not None and b.key is not None:
            return z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), a.key == b.key))
        raise Unsupported("iterator comparison")

    def range_copy(self, st, a, b, ety):
        X = self.X
        if not (isinstance(a, ItV) and isinstance(b, ItV)):
            raise Unsupported("range constructor")
        if a.kind in ("seq", "span") and b.kind == a.kind:
            c = X.read(st, a.cont)
            if z3.is_int_value(simp(a.pos)) and simp(a.pos).as_long() == 0:
                return val(st, SeqV(ety, simp(b.pos - a.pos), c.arr))
            t = z3.Int(fresh_name("t"))
            return val(st, SeqV(ety, simp(b.pos - a.pos), z3.Lambda([t], z3.Select(c.arr, t + a.pos))))
        raise Unsupported("range constructor from %s" % a.kind)

    # ------------------------------------------------------------------ methods
    def method(self, st, name, obj, args, n, bty, atys):
        X, S = self.X, self.S
        if isinstance(obj, ItV):
            raise Unsupported("iterator method " + name)
        if isinstance(obj, Path) and obj.steps and obj.steps[-1][0] == "own":
            obj = X.resolve_own(st, obj)
        v = X.load(st, obj)
        if bty.name in ("std::shared_ptr", "std::__shared_ptr") and (isinstance(v, Path) or v is NULL):
            if name == "get":
                return val(st, v)
            if name.startswith("operator bool"):
                return val(st, z3.BoolVal(v is not NULL))
        if isinstance(v, Path):
            obj, v = v, X.read(st, v)
        if bty.k == "ptr":
            bty = bty.args[0].strip()
        if isinstance(v, St) and "$span" in v.f and name not in v.f:
            if isinstance(obj, Path):
                obj = obj + ("f", "$span")
            else:
                st, obj = X.alloc(st, v.f["$span"], "span")
            v = v.f["$span"]
        tn = type(v).__name__
        if isinstance(v, z3.ExprRef):
            so = v.sort()
            tn = "Any" if so.eq(AnyS) else "Str" if so.eq(Str) else "Fn" if so.eq(Fn) else "Scalar"
        self.note("%s.%s" % (bty if len(str(bty)) < 60 else bty.name, name))
        h = X.contracts.get("method:%s::%s" % (bty.name, name))
        if h is not None:
            return h(X, st, obj, v, args, n)
        m = getattr(self, "m_%s_%s" % (tn, "op_call" if name == "operator()" else "op_assign" if name == "operator=" else name.replace("operator bool", "op_bool").replace("operator[]", "op_idx").replace("operator ", "op_conv_").split("<")[0].split(" ")[0].replace("::", "_")), None)
        if m is None:
            if name == "operator=":
                ks = X.kids(n)
                return self.operator(st, name, [obj] + list(args), n, [X.kids(ks[0])[0]] + ks[1:])
            if name.startswith("operator ") or name.startswith("operator bool"):
                if isinstance(v, z3.ExprRef) and tn == "Scalar":
                    return self.m_Scalar_load(st, obj, v, [], n)
                if tn == "Any":
                    return val(st, simp(AnyS.tag(v) != 0))
                if tn == "Fn":
                    return val(st, v != z3.Const("fn:empty", Fn))
            if isinstance(v, Opaque):
                return self.opaque_method(st, name, obj, v, args, n)
            raise Unsupported("std method %s.%s" % (tn, name))
        return m(st, obj, v, args, n)

    def opaque_method(self, st, name, obj, v, args, n):
        ty = self.X.ty(n)
        if name == "what":
            return val(*self.X.alloc(st, z3.Const(fresh_name("what"), Str), "what"))
        if v.what == "type_info":
            if name == "name":
                return val(*self.X.alloc(st, self.S.ufun("typename", [v.extra], Str) if isinstance(v.extra, z3.ExprRef) else z3.Const(fresh_name("nm"), Str), "nm"))
            if name == "hash_code":
                return val(st, v.extra)
        k = self.S.kind(ty)
        if v.what == "reducer":
            if name == "reference":
                return val(st, v.extra[1])
            if name == "init":
                K = self.X.kokkos
                return val(self.X.write(st, args[0], K.identity(st, v.extra[0], K.reducer_ty(v))), None)
        if ty.k == "void":
            return val(st, None)
        if ty.k == "ref":
            return val(st, obj)
        if v.what.startswith("ostream") or v.what.startswith("object std::stringstream") or "stream" in v.what or v.what.startswith("exception") or v.what.startswith("source_location"):
            return val(st, self.S.fresh(ty)) if k != "opaque" else val(st, Opaque(v.what))
        raise Unsupported("method %s of %r" % (name, v))

    # vector / array / initializer_list
    def m_SeqV_size(self, st, p, v, a, n):
        return val(st, v.n)

    m_SeqV_length = m_SeqV_size

    def m_SeqV_empty(self, st, p, v, a, n):
        return val(st, simp(v.n == 0))

    def m_SeqV_begin(self, st, p, v, a, n):
        return val(st, self.begin(st, p, v))

    def m_SeqV_end(self, st, p, v, a, n):
        return val(st, self.end(st, p, v))

    m_SeqV_cbegin, m_SeqV_cend = m_SeqV_begin, m_SeqV_end

    def m_SeqV_reserve(self, st, p, v, a, n):
        return val(st, None)

    m_SeqV_shrink_to_fit = m_SeqV_reserve

    def m_SeqV_clear(self, st, p, v, a, n):
        return val(self.X.write(st, p, SeqV(v.ety, iv(0), v.arr)), None)

    def m_SeqV_data(self, st, p, v, a, n):
        return val(st, p + ("i", iv(0)))

    def m_SeqV_push_back(self, st, p, v, a, n):
        e = self.S.pack(self.conv(st, self.X.load(st, a[0]) if not self.refelem(v) else a[0], v.ety), v.ety)
        s = self.X.write(st, p, SeqV(v.ety, simp(v.n + 1), z3.Store(v.arr, v.n, e)))
        if isinstance(a[0], Path) and self.S.kind(v.ety) == "any" and v.ety.name == "std::unique_ptr":
            s = self.X.write(s, a[0], self.S.default(v.ety))
        return val(s, None)

    def refelem(self, v):
        return v.ety.k in ("ref",)

    def m_SeqV_emplace_back(self, st, p, v, a, n):
        def f(s, e):
            w = self.X.read(s, p)
            s2 = self.X.write(s, p, SeqV(w.ety, simp(w.n + 1), z3.Store(w.arr, w.n, self.S.pack(e, w.ety))))
            return val(s2, p + ("i", w.n))
        return then(self.make(st, v.ety, a, n), f)

    def make(self, st, ty, args, n=None):
        """construct a ty from already evaluated arguments (emplace, make_unique, optional...)"""
        X = self.X
        atys = [X.ty(c).strip() for c in X.kids(n)[1:]] if n is not None and len(X.kids(n)) == len(args) + 1 else None
        k = self.S.kind(ty)
        if k == "struct":
            return self.overload(st, ty, args, atys)
        if len(args) == 1 and k in ("int", "real", "bool", "str", "fn"):
            v = X.load(st, args[0])
            return val(st, self.conv(st, v, ty))
        if k == "any" and ty.name == "std::any":
            v = X.load(st, args[0])
            if self.is_anyval(v):
                return val(st, v)
            return val(st, self.box(st, v, self.decay(atys[0]) if atys else self.vty(v)))
        if len(args) == 1:
            v = X.load(st, args[0])
            return val(st, v)
        if not args:
            return X.value_init(ty, st)
        return self.construct(st, ty, args, None)

    def overload(self, st, ty, args, atys, skip=0):
        """choose the constructor by argument types"""
        X = self.X
        cls = X.u.find_class(ty)
        best, bs = None, -1
        for m in X.ctors(cls):
            pp = m.get("_parent")
            if pp is not None and pp.get("kind") == "FunctionTemplateDecl" and next((c for c in pp.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"), None) is m:
                continue
            ps = X.u.params(m)
            req = [p for p in ps if X.var_init(p) is None]
            if not (len(req) <= len(args) <= len(ps)):
                continue
            sc = 0
            ok = True
            for i, (p, a) in enumerate(zip(ps, args)):
                t = X.ty(p).strip()
                at = atys[i] if atys else None
                if at is not None and str(at) == str(t):
                    sc += 3
                else:
                    v = X.load(st, a)
                    if isinstance(v, St):
                        if self.S.kind(t) == "struct" and (X.derives(v.cls, t)):
                            sc += 2
                        else:
                            ok = False
                    elif isinstance(v, z3.ExprRef) and self.S.kind(t) in ("int", "real", "bool", "str", "any", "fn") and v.sort().eq(self.S.sort(t)):
                        sc += 2
                    elif isinstance(v, (ClosV, FnPtr)) and self.S.kind(t) == "fn":
                        sc += 1
                    elif isinstance(v, z3.ExprRef) and self.S.kind(t) in ("int", "real", "bool") and (z3.is_int(v) or z3.is_real(v) or z3.is_bool(v)):
                        sc += 1
                    elif isinstance(v, SeqV) and self.S.kind(t) == "seq" and self.S.elem(t) == v.ety:
                        sc += 1
                    elif isinstance(v, MapV) and self.S.kind(t) == "map":
                        sc += 1
                    elif isinstance(v, Path) and t.k in ("ptr", "ref"):
                        sc += 1
                    elif t.k == "ref":
                        sc += 0
                    elif isinstance(v, SeqV) and self.S.kind(t) == "struct":
                        ok = False
                    else:
                        sc += 0
            if ok and sc > bs:
                best, bs = m, sc
        if best is None:
            if len(args) == 1 and isinstance(X.load(st, args[0]), St) and str(X.load(st, args[0]).cls) == str(ty):
                return X.copy_obj(st, ty, args[0], None)
            raise Unsupported("overload of constructor of %s" % ty)
        return X.construct(st, ty, best["type"]["qualType"], args)

    def m_SeqV_pop_back(self, st, p, v, a, n):
        return val(self.X.write(st, p, SeqV(v.ety, simp(v.n - 1), v.arr)), None)

    def m_SeqV_op_idx(self, st, p, v, a, n):
        return val(st, p + ("i", simp(a[0])))

    def m_SeqV_at(self, st, p, v, a, n):
        i = a[0]
        return self.X.fork(st, z3.And(i >= 0, i < v.n), lambda s: val(s, p + ("i", simp(i))), lambda s: self.X.throw_std(s, "out_of_range"))

    def m_SeqV_front(self, st, p, v, a, n):
        return val(st, p + ("i", iv(0)))

    def m_SeqV_back(self, st, p, v, a, n):
        return val(st, p + ("i", simp(v.n - 1)))

    def m_SeqV_resize(self, st, p, v, a, n):
        m = a[0]
        t = z3.Int(fresh_name("t"))

        def f(s, e):
            if isinstance(e, Path):
                e = self.X.read(s, e)
            arr = z3.Lambda([t], z3.If(t < v.n, z3.Select(v.arr, t), self.S.pack(e, v.ety)))
            return val(self.X.write(s, p, SeqV(v.ety, m, arr)), None)
        if len(a) > 1:
            return f(st, a[1])
        return then(self.X.value_init(v.ety, st), f)

    def m_SeqV_erase(self, st, p, v, a, n):
        X = self.X
        i = a[0].pos
        t = z3.Int(fresh_name("t"))
        if len(a) == 1:
            j = i + 1
        else:
            j = a[1].pos
        k = simp(j - i)
        if not (isinstance(a[0], ItV) and a[0].cont.same(p)):
            raise Unsupported("erase with foreign iterator")
        s = self.ub(st, z3.And(i >= 0, i < v.n) if len(a) == 1 else z3.And(i >= 0, i <= j, j <= v.n), "vector::erase with an invalid iterator")
        arr = z3.Lambda([t], z3.If(t < i, z3.Select(v.arr, t), z3.Select(v.arr, t + k)))
        return val(X.write(s, p, SeqV(v.ety, simp(v.n - k), arr)), ItV("seq", p, i))

    def ub(self, st, cond, what):
        """precondition of a trusted function: the caller's contract must imply it"""
        return st.event(("pre", simp(z3.Implies(z3.And(*st.pc) if st.pc else z3.BoolVal(True), cond)), what)).assume(cond)

    def m_SeqV_insert(self, st, p, v, a, n):
        X = self.X
        if not isinstance(a[0], ItV) or not a[0].cont.same(p):
            raise Unsupported("vector insert")
        i = a[0].pos
        t = z3.Int(fresh_name("t"))
        if len(a) == 2 and not isinstance(a[1], ItV):
            e = X.load(st, a[1])
            if isinstance(e, SeqV):
                src, off, k = e.arr, iv(0), e.n
            else:
                e = self.conv(st, e, v.ety)
                arr = z3.Lambda([t], z3.If(t < i, z3.Select(v.arr, t), z3.If(t == i, self.S.pack(e, v.ety), z3.Select(v.arr, t - 1))))
                return val(X.write(st, p, SeqV(v.ety, simp(v.n + 1), arr)), ItV("seq", p, i))
        elif len(a) == 3 and isinstance(a[1], ItV) and a[1].kind == "seq":
            e = X.read(st, a[1].cont)
            src, off, k = e.arr, a[1].pos, simp(a[2].pos - a[1].pos)
        else:
            raise Unsupported("vector insert")
        arr = z3.Lambda([t], z3.If(t < i, z3.Select(v.arr, t), z3.If(t < i + k, z3.Select(src, t - i + off), z3.Select(v.arr, t - k))))
        return val(X.write(st, p, SeqV(v.ety, simp(v.n + k), arr)), ItV("seq", p, i))

    def m_SeqV_swap(self, st, p, v, a, n):
        w = self.X.read(st, a[0])
        return val(self.X.write(self.X.write(st, p, w), a[0], v), None)

    def m_SeqV_assign(self, st, p, v, a, n):
        if len(a) == 2 and isinstance(a[0], ItV):
            return then(self.range_copy(st, a[0], a[1], v.ety), lambda s, w: val(self.X.write(s, p, w), None))
        if len(a) == 2:
            return val(self.X.write(st, p, SeqV(v.ety, a[0], z3.K(I, self.S.pack(self.X.load(st, a[1]), v.ety)))), None)
        raise Unsupported("vector assign")

    # span
    def m_SpanV_size(self, st, p, v, a, n):
        return val(st, v.n)

    def m_SpanV_empty(self, st, p, v, a, n):
        return val(st, simp(v.n == 0))

    def m_SpanV_begin(self, st, p, v, a, n):
        return val(st, self.begin(st, p, v))

    def m_SpanV_end(self, st, p, v, a, n):
        return val(st, self.end(st, p, v))

    def m_SpanV_data(self, st, p, v, a, n):
        return val(st, v.base + ("i", v.off))

    def m_SpanV_op_idx(self, st, p, v, a, n):
        s = st
        b = self.X.read(st, v.base) if isinstance(v.base, Path) and v.base.root != "nospan" else None
        ok = z3.And(a[0] >= 0, a[0] < v.n)
        if isinstance(b, SeqV):
            ok = z3.And(ok, v.off + a[0] >= 0, v.off + a[0] < b.n)
        s = s.event(("pre", simp(z3.Implies(z3.And(*s.pc) if s.pc else z3.BoolVal(True), ok)), "index inside the view and its storage"))
        return val(s, v.base + ("i", simp(v.off + a[0])))

    def m_SpanV_subspan(self, st, p, v, a, n):
        ln = a[1] if len(a) > 1 else simp(v.n - a[0])
        return val(st, SpanV(v.base, simp(v.off + a[0]), ln, v.ety))

    def m_SpanV_first(self, st, p, v, a, n):
        return val(st, SpanV(v.base, v.off, a[0], v.ety))

    def m_SpanV_last(self, st, p, v, a, n):
        return val(st, SpanV(v.base, simp(v.off + v.n - a[0]), a[0], v.ety))

    def m_SpanV_front(self, st, p, v, a, n):
        return val(st, v.base + ("i", v.off))

    def m_SpanV_back(self, st, p, v, a, n):
        return val(st, v.base + ("i", simp(v.off + v.n - 1)))

    # maps and sets
    def key(self, st, a, v):
        k = self.X.load(st, a)
        return simp(self.S.pack(self.conv(st, k, v.kty), v.kty))

    def m_MapV_size(self, st, p, v, a, n):
        return val(st, self.S.card(v.dom))

    def m_MapV_empty(self, st, p, v, a, n):
        return val(st, simp(self.S.card(v.dom) == 0))

    def m_MapV_contains(self, st, p, v, a, n):
        return val(st, simp(z3.Select(v.dom, self.key(st, a[0], v))))

    def m_MapV_count(self, st, p, v, a, n):
        return val(st, simp(z3.If(z3.Select(v.dom, self.key(st, a[0], v)), iv(1), iv(0))))

    def m_MapV_clear(self, st, p, v, a, n):
        ks = v.dom.sort().domain()
        return val(self.X.write(st, p, MapV(v.kty, v.vty, z3.K(ks, z3.BoolVal(False)), v.val, v.kind)), None)

    def m_MapV_reserve(self, st, p, v, a, n):
        return val(st, None)

    def m_MapV_begin(self, st, p, v, a, n):
        return val(st, self.begin(st, p, v))

    def m_MapV_end(self, st, p, v, a, n):
        return val(st, self.end(st, p, v))

    m_MapV_cbegin, m_MapV_cend = m_MapV_begin, m_MapV_end

    def m_MapV_find(self, st, p, v, a, n):
        k = self.key(st, a[0], v)
        return self.X.fork(st, z3.Select(v.dom, k), lambda s: val(s, ItV("map", p, None, k, z3.BoolVal(False))),
                           lambda s: val(s, ItV("map", p, None, k, z3.BoolVal(True))))

    def m_MapV_at(self, st, p, v, a, n):
        k = self.key(st, a[0], v)
        return self.X.fork(st, z3.Select(v.dom, k), lambda s: val(s, p + ("k", k)), lambda s: self.X.throw_std(s, "out_of_range"))

    def put(self, st, p, v, k, e):
        return self.X.write(st, p, MapV(v.kty, v.vty, z3.Store(v.dom, k, z3.BoolVal(True)), z3.Store(v.val, k, e), v.kind))

    def m_MapV_op_idx(self, st, p, v, a, n):
        k = self.key(st, a[0], v)

        def absent(s):
            return then(self.X.value_init(v.vty, s), lambda s2, e: val(self.put(s2, p, self.X.read(s2, p), k, self.S.pack(e, v.vty)), p + ("k", k)))
        if z3.is_false(simp(z3.Select(v.dom, k))):
            return absent(st)
        # merged form when the default value is a plain term: no case split
        return self.X.fork(st, z3.Select(v.dom, k), lambda s: val(s, p + ("k", k)), absent)

    def insres(self, st, p, k, ins, n):
        it = ItV("map", p, None, k, z3.BoolVal(False))
        return St(Ty("named", "std::pair", (Ty("named", "iterator"), Ty("bool", "bool"))), {"first": it, "second": ins})

    def m_MapV_insert(self, st, p, v, a, n):
        X = self.X
        if len(a) == 2 and isinstance(a[0], ItV) and not a[0].cont.same(p):
            c = X.read(st, a[0].cont)
            if isinstance(c, MapV):
                return X.loops.map_merge(st, p, v, c)
            if isinstance(c, SeqV):
                return then(X.loops.map_from_seq(st, v, c), lambda s, w: val(X.write(s, p, w), None))
            raise Unsupported("map range insert")
        x = X.load(st, a[-1])
        if isinstance(x, SeqV):
            return then(X.loops.map_from_seq(st, v, x), lambda s, w: val(X.write(s, p, w), None))
        if "set" in v.kind:
            k = simp(self.S.pack(self.conv(st, x, v.kty), v.kty))
            e = z3.BoolVal(True)
        else:
            if not isinstance(x, St):
                raise Unsupported("map insert")
            f = list(x.f.values())
            kk = f[0] if not isinstance(f[0], Path) else X.read(st, f[0])
            ee = f[1] if not isinstance(f[1], Path) or v.vty.k in ("ptr", "ref") else X.read(st, f[1])
            k = simp(self.S.pack(self.conv(st, kk, v.kty), v.kty))
            e = self.S.pack(self.conv(st, ee, v.vty), v.vty)
        had = simp(z3.Select(v.dom, k))
        s = X.write(st, p, MapV(v.kty, v.vty, z3.Store(v.dom, k, z3.BoolVal(True)), z3.Store(v.val, k, simp(z3.If(had, z3.Select(v.val, k), e))), v.kind))
        return val(s, self.insres(s, p, k, simp(z3.Not(had)), n))

    def m_MapV_insert_or_assign(self, st, p, v, a, n):
        k = self.key(st, a[0], v)
        had = simp(z3.Select(v.dom, k))
        t = self.X.ty(self.X.kids(n)[2]).strip()

        def f(s, e):
            s2 = self.put(s, p, v, k, self.S.pack(e, v.vty))
            return val(s2, self.insres(s2, p, k, simp(z3.Not(had)), n))
        return then(self.make1(st, v.vty, a[1], t), f)

    def make1(self, st, ty, a, at):
        x = self.X.load(st, a)
        if self.S.kind(ty) == "any" and ty.name == "std::any" and not self.is_anyval(x):
            return val(st, self.box(st, x, self.decay(at)))
        if self.S.kind(ty) == "struct" and isinstance(x, St):
            if str(x.cls) == str(ty):
                return self.X.copy_obj(st, ty, a, None)
            return self.overload(st, ty, [a], [at])
        return val(st, self.conv(st, x, ty))

    def m_MapV_try_emplace(self, st, p, v, a, n):
        k = self.key(st, a[0], v)
        X = self.X

        def absent(s):
            at = [X.ty(c).strip() for c in X.kids(n)[2:]]

            def f(s2, e):
                s3 = self.put(s2, p, X.read(s2, p), k, self.S.pack(e, v.vty))
                return val(s3, self.insres(s3, p, k, z3.BoolVal(True), n))
            if len(a) == 2:
                return then(self.make1(s, v.vty, a[1], at[0]), lambda s2, e: f(self.consume(s2, a[1], v.vty, X.kids(n)[2]), e))
            if len(a) == 1:
                return then(X.value_init(v.vty, s), f)
            if self.S.kind(v.vty) == "struct":
                return then(self.overload(s, v.vty, a[1:], at), f)
            raise Unsupported("try_emplace")
        return X.fork(st, z3.Select(v.dom, k), lambda s: val(s, self.insres(s, p, k, z3.BoolVal(False), n)), absent)

    def consume(self, s, a, ty, node):
        """moved-from argument: contents unspecified"""
        if isinstance(a, Path) and node.get("valueCategory") == "xvalue":
            v = self.X.read(s, a)
            if isinstance(v, St):
                return self.X.write(s, a, self.S.fresh(v.cls))
        return s

    def m_MapV_emplace(self, st, p, v, a, n):
        if len(a) == 1:
            return self.m_MapV_insert(st, p, v, a, n)
        if len(a) == 2:
            return self.m_MapV_try_emplace(st, p, v, a, n)
        raise Unsupported("emplace")

    def m_MapV_erase(self, st, p, v, a, n):
        if isinstance(a[0], ItV):
            it = a[0]
            if len(a) != 1 or it.key is None or not it.cont.same(p):
                raise Unsupported("erase(iterator)")
            s = self.ub(st, z3.Not(it.end if it.end is not None else z3.BoolVal(False)), "erase(end())")
            return val(self.X.write(s, p, MapV(v.kty, v.vty, z3.Store(v.dom, it.key, z3.BoolVal(False)), v.val, v.kind)), Opaque("iterator"))
        k = self.key(st, a[0], v)
        had = z3.Select(v.dom, k)
        s = self.X.write(st, p, MapV(v.kty, v.vty, z3.Store(v.dom, k, z3.BoolVal(False)), v.val, v.kind))
        return val(s, simp(z3.If(had, iv(1), iv(0))))

    def m_MapV_extract(self, st, p, v, a, n):
        raise Unsupported("extract")

    # strings
    def m_Str_empty(self, st, p, v, a, n):
        return val(st, simp(v == self.S.lit("")))

    def m_Str_c_str(self, st, p, v, a, n):
        return val(st, p)

    m_Str_data = m_Str_c_str

    def m_Str_size(self, st, p, v, a, n):
        r = self.S.ufun("strlen", [v], I)
        self.S.fact(r >= 0)
        self.S.fact((r == 0) == (v == self.S.lit("")))
        return val(st, r)

    m_Str_length = m_Str_size

    def m_Str_op_assign(self, st, p, v, a, n):
        return val(self.X.write(st, p, self.X.load(st, a[0])), p)

    def m_Str_append(self, st, p, v, a, n):
        w = self.X.load(st, a[0])
        return val(self.X.write(st, p, self.S.concat(v, w)), p)

    # any
    def m_Any_has_value(self, st, p, v, a, n):
        return val(st, simp(AnyS.tag(v) != 0))

    def m_Any_type(self, st, p, v, a, n):
        return val(*self.X.alloc(st, Opaque("type_info", simp(AnyS.tag(v))), "ti"))

    def m_Any_reset(self, st, p, v, a, n):
        if a and isinstance(a[0], Opaque) and a[0].what == "new":
            return val(self.X.write(st, p, a[0].extra), None)
        return val(self.X.write(st, p, AnyS.mk_any(iv(0), z3.Const("nopay", Pay))), None)

    def m_Any_get(self, st, p, v, a, n):
        if z3.is_int_value(simp(AnyS.tag(v))) and simp(AnyS.tag(v)).as_long() == 0:
            return val(st, NULL)
        return val(st, p + ("own",))

    def m_Any_swap(self, st, p, v, a, n):
        w = self.X.read(st, a[0])
        return val(self.X.write(self.X.write(st, p, w), a[0], v), None)

    def m_Any_emplace(self, st, p, v, a, n):
        raise Unsupported("any::emplace")

    # atomics
    def m_Scalar_load(self, st, p, v, a, n):
        s = st.event(("atomic_load", p))
        return val(s, v)

    def m_Scalar_store(self, st, p, v, a, n):
        return val(self.X.write(st, p, a[0]).event(("atomic_store", p)), None)

    def m_Scalar_fetch_add(self, st, p, v, a, n):
        return val(self.X.write(st, p, simp(v + a[0])).event(("atomic_rmw", p)), v)

    def m_Scalar_fetch_sub(self, st, p, v, a, n):
        return val(self.X.write(st, p, simp(v - a[0])).event(("atomic_rmw", p)), v)

    def m_Scalar_exchange(self, st, p, v, a, n):
        return val(self.X.write(st, p, a[0]).event(("atomic_rmw", p)), v)

    # optional / variant
    def m_OptV_has_value(self, st, p, v, a, n):
        return val(st, v.has)

    m_OptV_op_bool = m_OptV_has_value

    def m_OptV_value(self, st, p, v, a, n):
        return self.X.fork(st, v.has, lambda s: val(s, p + ("opt",)), lambda s: self.X.throw_std(s, "bad_optional_access"))

    def m_OptV_value_or(self, st, p, v, a, n):
        return self.X.fork(st, v.has, lambda s: val(s, v.v), lambda s: val(s, self.X.load(s, a[0])))

    def m_OptV_reset(self, st, p, v, a, n):
        return val(self.X.write(st, p, OptV(v.ety, z3.BoolVal(False), v.v)), None)

    def m_VarV_index(self, st, p, v, a, n):
        return val(st, v.idx)

    # ------------------------------------------------------------------ operators
    def operator(self, st, name, vs, n, nodes):
        X, S = self.X, self.S
        self.note(name)
        if name in ("operator<<", "operator>>"):
            a = X.load(st, vs[0])
            if isinstance(a, Opaque):
                return val(st, vs[0])
        x = vs[0]
        vx = X.load(st, x) if isinstance(x, Path) else x
        if isinstance(vx, Path) and name not in ("operator=",):
            x, vx = vx, X.read(st, vx)
        if isinstance(vx, St) and "$span" in vx.f and name == "operator[]":
            vx = vx.f["$span"]
        if name == "operator=":
            nt = X.ty(nodes[1]).strip() if len(nodes) > 1 else None
            if isinstance(vx, z3.ExprRef) and self.is_anyval(vx) and X.ty(nodes[0]).strip().name == "std::any":
                r = X.load(st, vs[1])
                if not (nt.k == "named" and nt.name == "std::any"):
                    r = self.box(st, r, self.decay(nt))
                return val(X.write(st, x, r), x)
            if self.is_anyval(vx):        # unique_ptr
                r = X.load(st, vs[1]) if isinstance(vs[1], Path) else vs[1]
                if r is NULL or isinstance(r, Opaque):
                    r = S.default(X.ty(nodes[0]).strip())
                s = X.write(st, x, r)
                if isinstance(vs[1], Path) and not vs[1].same(x):
                    s = X.write(s, vs[1], AnyS.mk_any(iv(0), z3.Const("nopay", Pay)))
                return val(s, x)
            if isinstance(vx, SpanV):
                r = X.load(st, vs[1])
                return val(X.write(st, x, r.f["$span"] if isinstance(r, St) else r), x)
            if isinstance(vx, OptV):
                r = X.load(st, vs[1])
                if not isinstance(r, OptV):
                    r = S.default(X.ty(nodes[0]).strip()) if isinstance(r, Opaque) else OptV(vx.ety, z3.BoolVal(True), r)
                return val(X.write(st, x, r), x)
            if isinstance(vx, VarV):
                r = X.load(st, vs[1])
                if not isinstance(r, VarV):
                    ty = X.ty(nodes[0]).strip()
                    i = next((i for i, t in enumerate(vx.tys) if str(t) == str(nt)), None)
                    if i is None:
                        raise Unsupported("variant assignment")
                    vals = list(vx.vals)
                    vals[i] = r
                    r = VarV(vx.tys, iv(i), vals)
                return val(X.write(st, x, r), x)
            if isinstance(vx, SeqV):
                r = X.load(st, vs[1])
                s = X.write(st, x, SeqV(vx.ety, r.n, r.arr))
                if nodes[1].get("valueCategory") == "xvalue" and isinstance(vs[1], Path) and "initializer_list" not in str(nt):
                    if not vs[1].same(x) and nodes[1].get("kind") == "CallExpr":
                        s = X.write(s, vs[1], SeqV(vx.ety, iv(0), r.arr))
                return val(s, x)
            if isinstance(vx, MapV):
                r = X.load(st, vs[1])
                if isinstance(r, SeqV):
                    return then(X.loops.map_from_seq(st, MapV(vx.kty, vx.vty, z3.K(vx.dom.sort().domain(), z3.BoolVal(False)), vx.val, vx.kind), r), lambda s, w: val(X.write(s, x, w), x))
                s = X.write(st, x, r)
                if nodes[1].get("kind") == "CallExpr" and nodes[1].get("valueCategory") == "xvalue" and isinstance(vs[1], Path) and not vs[1].same(x):
                    s = X.write(s, vs[1], S.fresh(X.ty(nodes[0]).strip()))
                return val(s, x)
            if isinstance(vx, ItV) or isinstance(vx, Opaque) or isinstance(vx, (ClosV, FnPtr)):
                r = vs[1] if not isinstance(vs[1], Path) else X.read(st, vs[1])
                return val(X.write(st, x, r), x)
            return self.assign(st, x, vs[1])
        if name == "operator[]":
            if isinstance(vx, SeqV):
                return self.m_SeqV_op_idx(st, x, vx, [X.load(st, vs[1])], n)
            if isinstance(vx, MapV):
                return self.m_MapV_op_idx(st, x, vx, vs[1:], n)
            if isinstance(vx, SpanV):
                return self.m_SpanV_op_idx(st, x, vx, [X.load(st, vs[1])], n)
            raise Unsupported("operator[] on %r" % (vx,))
        if name in ("operator*", "operator->") and len(vs) == 1:
            if isinstance(vx, ItV):
                return val(st, self.deref(st, vx))
            if self.is_anyval(vx):
                p = x + ("own",)
                try:
                    return val(st, X.resolve_own(st, p))
                except Unsupported:
                    return val(st, p)
            if isinstance(vx, OptV):
                return val(st, x + ("opt",))
            return val(st, x)
        if isinstance(vx, ItV):
            return self.it_op(st, name, x, vx, vs[1:], n)
        if name == "operator()":
            if isinstance(vx, z3.ExprRef) or isinstance(vx, (Opaque, St)):
                ot = X.ty(nodes[0]).strip()
                if ot.k == "named" and ot.name in ("std::hash", "std::__hash_base", "std::__str_hash_base") and len(vs) == 2:
                    a = X.load(st, vs[1])
                    if isinstance(a, z3.ExprRef):
                        h = z3.Function("hash_%s" % a.sort(), a.sort(), I)
                        X.trusted.add("std::hash: a function of the value, no effect")
                        S.fact(z3.And(h(a) >= 0, h(a) < 2 ** 64))
                        return val(st, h(a))
            return X.call_value(st, vx, vs[1:])
        if name in ("operator==", "operator!="):
            y = X.load(st, vs[1]) if len(vs) > 1 else None
            if isinstance(vx, Opaque) and isinstance(y, Opaque) and vx.what == "type_info":
                c = vx.extra == y.extra if vx.extra is not None and y.extra is not None else z3.Bool(fresh_name("tyeq"))
            elif self.is_anyval(vx) and (y is NULL or isinstance(y, Opaque)):
                c = AnyS.tag(vx) == 0
            elif isinstance(vx, z3.ExprRef) and vx.sort().eq(Fn) and (y is NULL or isinstance(y, Opaque)):
                c = vx == z3.Const("fn:empty", Fn)
            elif isinstance(vx, ClosV) and y is NULL:
                c = z3.BoolVal(False)
            else:
                c = X.deep_eq(vx, y)
            return val(st, simp(c if name == "operator==" else z3.Not(c)))
        if name in ("operator<", "operator>", "operator<=", "operator>="):
            y = X.load(st, vs[1])
            c = self.less(vx, y) if name in ("operator<", "operator>=") else self.less(y, vx)
            if name in ("operator>=", "operator<="):
                c = z3.Not(c)
            return val(st, simp(c))
        if name == "operator<=>":
            y = X.load(st, vs[1])
            return val(st, St(Ty("named", "cmp"), {"lt": self.less(vx, y), "eq": X.deep_eq(vx, y)}))
        if name in ("operator+", "operator+=") and isinstance(vx, z3.ExprRef) and vx.sort().eq(Str):
            y = X.load(st, vs[1])
            if isinstance(y, z3.ExprRef) and z3.is_int(y):
                y = S.ufun("chr", [y], Str)
            if not (isinstance(y, z3.ExprRef) and y.sort().eq(Str)):
                y = z3.Const(fresh_name("str"), Str)
            r = S.concat(vx, y)
            if name == "operator+=":
                return val(X.write(st, x, r), x)
            return val(st, r)
        if name in ("operator++", "operator--") and isinstance(vx, z3.ExprRef) and z3.is_int(vx):
            d = 1 if name == "operator++" else -1
            new = simp(vx + d)
            s = X.write(st, x, new)
            if X.ty(nodes[0]).strip().name in ("std::atomic", "std::__atomic_base"):
                s = s.event(("atomic_rmw", x))
                X.S.assumed.add("the document id counter does not overflow (fewer than 2^31 generated ids)")
            return val(s, vx if len(vs) > 1 else new)
        if name in ("operator+=", "operator-=") and isinstance(vx, z3.ExprRef) and z3.is_int(vx) and X.ty(nodes[0]).strip().name in ("std::atomic", "std::__atomic_base"):
            y = X.load(st, vs[1])
            new = simp(vx + y if name == "operator+=" else vx - y)
            return val(X.write(st, x, new).event(("atomic_rmw", x)), new)
        if name == "operator!" or name == "operator bool":
            pass
        raise Unsupported("operator %s on %r" % (name, type(vx).__name__))

    def less(self, a, b):
        if isinstance(a, z3.ExprRef) and a.sort().eq(Str):
            self.str_order()
            return z3.Function("strless", Str, Str, B)(a, b)
        if isinstance(a, St) and a.cls.name == "cmp":
            raise Unsupported("three-way result")
        if isinstance(a, z3.ExprRef) and (z3.is_int(a) or z3.is_real(a)):
            return a < b
        raise Unsupported("operator< on %r" % (a,))

    def str_order(self):
        if getattr(self, "_so", False):
            return
        self._so = True
        lt = z3.Function("strless", Str, Str, B)
        a, b, c = z3.Consts("sa sb sc", Str)
        self.S.facts.append(z3.ForAll([a], z3.Not(lt(a, a))))
        self.S.facts.append(z3.ForAll([a, b], z3.Or(lt(a, b), lt(b, a), a == b)))
        self.S.facts.append(z3.ForAll([a, b, c], z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)), patterns=[z3.MultiPattern(lt(a, b), lt(b, c))]))

    def it_op(self, st, name, x, it, rest, n):
        X = self.X
        if name in ("operator==", "operator!="):
            y = rest[0] if isinstance(rest[0], ItV) else X.read(st, rest[0])
            c = self.it_eq(it, y)
            return val(st, simp(c if name == "operator==" else z3.Not(c)))
        if name in ("operator++", "operator--"):
            d = 1 if name == "operator++" else -1
            if it.pos is None:
                raise Unsupported("advance of map iterator")
            new = ItV(it.kind, it.cont, simp(it.pos + d), None, None, it.enum)
            if it.kind == "map":
                new.key = None
            s = X.write(st, x, new)
            return val(s, it if rest else x)
        if name in ("operator+", "operator-") and it.kind in ("seq", "span"):
            y = X.load(st, rest[0])
            if isinstance(y, ItV):
                return val(st, simp(it.pos - y.pos))
            return val(st, ItV(it.kind, it.cont, simp(it.pos + y if name == "operator+" else it.pos - y)))
        if name in ("operator+=", "operator-=") and it.kind in ("seq", "span"):
            y = X.load(st, rest[0])
            return val(X.write(st, x, ItV(it.kind, it.cont, simp(it.pos + y if name == "operator+=" else it.pos - y))), x)
        if name in ("operator<", "operator>", "operator<=", "operator>=") and it.kind in ("seq", "span"):
            y = X.load(st, rest[0])
            from .exec import CMP
            return val(st, simp(CMP[name[8:]](it.pos, y.pos)))
        if name == "operator[]" and it.kind in ("seq", "span"):
            return val(st, it.cont + ("i", simp(it.pos + X.load(st, rest[0]))))
        raise Unsupported("iterator " + name)

    # ------------------------------------------------------------------ free functions
    def call(self, n, d, fn, args, st):
        X = self.X
        name = d.get("name")
        h = X.contracts.get("std:" + str(name))
        if h is not None:
            return X.evs(args, st, lambda s, vs: h(X, s, vs, n, args))
        if not args and name in ("max", "min", "lowest", "epsilon", "infinity"):
            return val(st, self.limit(name, X.ty(n).strip()))
        m = getattr(self, "f_" + str(name), None)
        if m is None:
            a = getattr(self.X, "kokkos", None)
            if a is not None:
                r = a.call(name, n, d, args, st)
                if r is not None:
                    return r
            raise Unsupported("external function %s" % name)
        self.note("std::" + name)
        args = [a for a in args if not (a["kind"] == "CXXDefaultArgExpr" and not X.kids(a))]
        return X.evs(args, st, lambda s, vs: m(s, vs, n, args))

    def f___builtin_memcpy(self, st, vs, n, args):
        """copies an array member as a whole (the body of an implicit assignment operator)"""
        X = self.X
        d, q, b = vs
        if not isinstance(d, Path) or not isinstance(q, Path):
            raise Unsupported("memcpy")
        dv, qv = X.read(st, d), X.read(st, q)
        if not (isinstance(dv, SeqV) and isinstance(qv, SeqV) and str(dv.ety) == str(qv.ety) and dv.n.eq(qv.n)):
            raise Unsupported("memcpy of %s" % type(dv).__name__)
        w = {"double": 8, "float": 4}.get(dv.ety.strip().name) or INTS.get(dv.ety.strip().name, (0,))[0] // 8
        if not w or not z3.is_true(simp(X.load(st, b) == dv.n * w)):
            raise Unsupported("memcpy of part of an array")
        return val(X.write(st, d, qv), d)

    def f_move(self, st, vs, n, args):
        if len(vs) == 1:
            return val(st, vs[0])
        raise Unsupported("std::move range")

    f_forward = f_as_const = f_ref = f_cref = f_addressof = f_launder = f_move

    def f_to_string(self, st, vs, n, args):
        v = X_load(self.X, st, vs[0])
        return val(st, self.S.tostr(v))

    def f_any_cast(self, st, vs, n, args):
        X, S = self.X, self.S
        rt = X.ty(n)
        pt = X.ty(args[0])
        if pt.k == "ptr" and rt.k == "ptr":       # any_cast<T>(any*)
            ty = rt.args[0].strip()
            p = vs[0]
            if p is NULL:
                return val(st, NULL)
            v = X.read(st, p)
            return X.fork(st, AnyS.tag(v) == S.tag(ty), lambda s: val(s, p + ("any", ty)), lambda s: val(s, NULL))
        ty = rt.strip()
        p = vs[0]
        if not isinstance(p, Path):
            st, p = X.alloc(st, p, "tmpany")
        v = X.read(st, p)
        isref = self.node_is_lvalue(n)

        def good(s):
            if isref:
                return val(s, p + ("any", ty))
            return val(s, X.read(s, p + ("any", ty)))
        return X.fork(st, AnyS.tag(v) == S.tag(ty), good, lambda s: X.throw_std(s, "bad_any_cast"))

    def node_is_lvalue(self, n):
        return n.get("valueCategory") in ("lvalue", "xvalue")

    def f_make_any(self, st, vs, n, args):
        raise Unsupported("make_any")

    def f_make_unique(self, st, vs, n, args):
        ty = self.X.ty(n).args[0]
        at = [self.X.ty(a).strip() for a in args]

        def f(s, v):
            return val(s, self.S.to_any(v, ty))
        if self.S.kind(ty) == "struct":
            if not vs:
                return then(self.X.construct(st, ty, None, []), f)
            return then(self.overload(st, ty, vs, at), f)
        raise Unsupported("make_unique<%s>" % ty)

    def f_make_pair(self, st, vs, n, args):
        ty = self.X.ty(n)
        fs = self.S.tup_fields(ty)
        return val(st, St(ty, {f: (v if t.k in ("ref", "ptr") else self.X.load(st, v)) for v, (f, t) in zip(vs, fs)}))

    f_make_tuple = f_forward_as_tuple = f_tie = f_make_pair

    def f_get(self, st, vs, n, args):
        X = self.X
        v = X.load(st, vs[0])
        rt = X.ty(n).strip()
        if isinstance(v, VarV):
            for i, t in enumerate(v.tys):
                if str(t) == str(rt):
                    return X.fork(st, v.idx == i, lambda s: val(s, vs[0] + ("alt", i) if isinstance(vs[0], Path) else v.vals[i]),
                                  lambda s: X.throw_std(s, "bad_variant_access"))
            raise Unsupported("std::get on variant")
        if isinstance(v, St):
            idx = self.tmpl_index(n)
            names = list(v.f)
            if idx is None:
                fs = dict(self.S.tup_fields(v.cls))
                c = [nm for nm in names if str(fs[nm].strip()) == str(rt)]
                if len(c) != 1:
                    raise Unsupported("std::get without index")
                nm = c[0]
            else:
                nm = names[idx]
            x = v.f[nm]
            if isinstance(x, Path) or not isinstance(vs[0], Path):
                return val(st, x)
            return val(st, vs[0] + ("f", nm))
        if isinstance(v, SeqV):
            idx = self.tmpl_index(n)
            if idx is not None:
                return val(st, vs[0] + ("i", iv(idx)))
        raise Unsupported("std::get")

    def f_apply(self, st, vs, n, args):
        X = self.X
        t = X.load(st, vs[1])
        if not isinstance(t, St):
            raise Unsupported("apply on %r" % (t,))
        a = [x if isinstance(x, Path) or not isinstance(vs[1], Path) else vs[1] + ("f", k) for k, x in t.f.items()]
        return X.call_value(st, X.load(st, vs[0]), a)

    def tmpl_index(self, n):
        import re
        c = self.X.kids(n)[0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = self.X.kids(c)[0]
        q = c["type"].get("qualType", "")
        m = re.search(r"tuple_element(?:_t)?<\s*(\d+)", q)
        if m:
            return int(m.group(1))
        m = re.search(r"_Nth_type<\s*(\d+)|__tuple_element_t<\s*(\d+)", q)
        if m:
            return int(m.group(1) or m.group(2))
        return None

    def f_holds_alternative(self, st, vs, n, args):
        # the explicit template argument is not in the dump: taken from the source text of the callee
        v = self.X.load(st, vs[0])
        c = self.X.kids(n)[0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = self.X.kids(c)[0]
        m = re.fullmatch(r"(?:std\s*::\s*)?holds_alternative\s*<\s*([\w:\s]+?)\s*>", (self.X.u.text(c) or "").strip())
        if not m or not isinstance(v, VarV):
            raise Unsupported("holds_alternative (template argument not in the dump)")
        nm = re.sub(r"\s", "", m.group(1)).split("::")[-1]
        hits = [i for i, t in enumerate(v.tys) if str(t).split("<")[0].split("::")[-1] == nm]
        if len(hits) != 1:
            raise Unsupported("holds_alternative<%s>" % nm)
        return val(st, v.idx == hits[0])

    def f_get_if(self, st, vs, n, args):
        v = self.X.read(st, vs[0])
        rt = self.X.ty(n).args[0].strip()
        for i, t in enumerate(v.tys):
            if str(t) == str(rt):
                return self.X.fork(st, v.idx == i, lambda s: val(s, vs[0] + ("alt", i)), lambda s: val(s, NULL))
        raise Unsupported("get_if")

    def f_visit(self, st, vs, n, args):
        X = self.X
        f = X.load(st, vs[0])
        outs = [(st, [])]
        for p in vs[1:]:
            nx = []
            for s, ch in outs:
                v = X.load(s, p)
                if isinstance(v, St) and any(isinstance(q, VarV) for q in v.f.values()):
                    for k, q in v.f.items():
                        if isinstance(q, VarV):
                            p, v = p + ("f", k), q
                            break
                if not isinstance(v, VarV):
                    raise Unsupported("visit on %r" % (v,))
                for i in range(len(v.tys)):
                    a = s.assume(v.idx == i)
                    if X.feasible(a):
                        if isinstance(p, Path):
                            nx.append((a, ch + [p + ("alt", i)]))
                        else:
                            a, q = X.alloc(a, v.vals[i], "alt")
                            nx.append((a, ch + [q]))
            outs = nx
        res = []
        for s, ch in outs:
            res += X.call_value(s, f, ch)
        return res

    def f_begin(self, st, vs, n, args):
        return val(st, self.begin(st, vs[0], self.X.load(st, vs[0])))

    def f_end(self, st, vs, n, args):
        return val(st, self.end(st, vs[0], self.X.load(st, vs[0])))

    f_cbegin, f_cend = f_begin, f_end

    def f_size(self, st, vs, n, args):
        v = self.X.load(st, vs[0])
        return val(st, v.n if isinstance(v, (SeqV, SpanV)) else self.S.card(v.dom))

    def f_distance(self, st, vs, n, args):
        return val(st, simp(vs[1].pos - vs[0].pos))

    def f_next(self, st, vs, n, args):
        it = vs[0]
        if not isinstance(it, ItV) or it.kind not in ("seq", "span"):
            raise Unsupported("std::next")
        return val(st, ItV(it.kind, it.cont, simp(it.pos + (vs[1] if len(vs) > 1 else 1))))

    def f_advance(self, st, vs, n, args):
        it = self.X.read(st, vs[0])
        return val(self.X.write(st, vs[0], ItV(it.kind, it.cont, simp(it.pos + vs[1]))), None)

    def f_swap(self, st, vs, n, args):
        a, b = self.X.read(st, vs[0]), self.X.read(st, vs[1])
        return val(self.X.write(self.X.write(st, vs[0], b), vs[1], a), None)

    def f_exchange(self, st, vs, n, args):
        a = self.X.read(st, vs[0])
        return then(self.assign(st, vs[0], vs[1]), lambda s, _: val(s, a))

    def limit(self, name, ty):
        """std::numeric_limits<ty>::name()"""
        if ty.k == "int" and ty.name in INTS:
            bits, sg = INTS[ty.name]
            return iv(2 ** (bits - (1 if sg else 0)) - 1) if name == "max" else iv(-2 ** (bits - 1) if sg else 0)
        if ty.k == "real":
            v = z3.Const("limit_%s<%s>" % (name, ty), R)
            self.S.fact(v < 0 if name == "lowest" else v > 0)
            return v
        raise Unsupported("numeric_limits<%s>::%s" % (ty, name))

    def f_max(self, st, vs, n, args):
        a, b = self.X.load(st, vs[0]), self.X.load(st, vs[1])
        return val(*self.X.alloc(st, simp(z3.If(a < b, b, a)), "max"))

    def f_min(self, st, vs, n, args):
        a, b = self.X.load(st, vs[0]), self.X.load(st, vs[1])
        return val(*self.X.alloc(st, simp(z3.If(b < a, b, a)), "min"))

    def f_abs(self, st, vs, n, args):
        v = self.X.load(st, vs[0])
        return val(st, simp(z3.If(v >= 0, v, -v)))

    f_fabs = f_abs

    def f_sqrt(self, st, vs, n, args):
        v = self.X.load(st, vs[0])
        return val(st, self.S.ufun("sqrt", [v], R))

    def f_pow(self, st, vs, n, args):
        a, b = [self.X.load(st, v) for v in vs[:2]]
        a, b = self.S.coerce_real(a), self.S.coerce_real(b)
        return val(st, self.S.ufun("pow", [a, b], R))

    def f_exit(self, st, vs, n, args):
        return [Out(st, "exit", vs[0] if vs and isinstance(vs[0], z3.ExprRef) else iv(0))]

    f__Exit = f_quick_exit = f_exit

    def f_abort(self, st, vs, n, args):
        return [Out(st, "exit", iv(134))]

    f_terminate = f_abort

    def f_current(self, st, vs, n, args):
        return val(st, Opaque("source_location"))

    def f_endl(self, st, vs, n, args):
        return val(st, vs[0])

    def f_accumulate(self, st, vs, n, args):
        rt = self.X.ty(n)
        if self.S.kind(rt) == "str":
            return val(st, z3.Const(fresh_name("accum"), Str))      # only used to build messages
        return self.X.loops.accumulate(st, vs, n, args)

    def f_sort(self, st, vs, n, args):
        return self.X.loops.sort(st, vs, n, args)

    f_stable_sort = f_sort

    def f_for_each(self, st, vs, n, args):
        return self.X.loops.algo("for_each", st, vs, n, args)

    def f_transform(self, st, vs, n, args):
        return self.X.loops.algo("transform", st, vs, n, args)

    def f_copy(self, st, vs, n, args):
        return self.X.loops.algo("copy", st, vs, n, args)

    def f_copy_if(self, st, vs, n, args):
        return self.X.loops.algo("copy_if", st, vs, n, args)

    def f_any_of(self, st, vs, n, args):
        return self.X.loops.algo("any_of", st, vs, n, args)

    def f_all_of(self, st, vs, n, args):
        return self.X.loops.algo("all_of", st, vs, n, args)

    def f_none_of(self, st, vs, n, args):
        return self.X.loops.algo("none_of", st, vs, n, args)

    def f_find_if(self, st, vs, n, args):
        return self.X.loops.algo("find_if", st, vs, n, args)

    def f_find(self, st, vs, n, args):
        return self.X.loops.algo("find", st, vs, n, args)

    def f_count_if(self, st, vs, n, args):
        return self.X.loops.algo("count_if", st, vs, n, args)

    def f_fill(self, st, vs, n, args):
        return self.X.loops.algo("fill", st, vs, n, args)

    def f_back_inserter(self, st, vs, n, args):
        return val(st, ItV("back", vs[0]))

    def f_inserter(self, st, vs, n, args):
        return val(st, ItV("ins", vs[0]))

    def f___cxa_demangle(self, st, vs, n, args):
        raise Unsupported("demangle")


def X_load(X, st, v):
    return X.load(st, v) if isinstance(v, Path) else v
