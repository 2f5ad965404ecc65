"""Assumed contracts of the Kokkos API (the trusted part below NeoFOAM's own parallel layer).

parallel_for      runs the kernel once for every index of [begin, end), in any order, iterations unordered
parallel_reduce   identity of the reduction joined with the contribution of every index once; plain result = sum
parallel_scan     kernel(i, partial, final): partial holds the contributions of all smaller indices; the final pass
                  runs once per index; the returned total holds all contributions
malloc/realloc/free  fresh storage, common prefix kept, released
deep_copy         copies element by element; atomics act as their sequential counterparts on one location
"""
import z3
from .ast import Ty, Unsupported
from .sym import *
from .loops import then2

SPACES = ("Kokkos::Serial", "Kokkos::HostParallel", "Kokkos::Device")


EXEC_SPACES = ("NeoFOAM::SerialExecutor", "NeoFOAM::CPUExecutor", "NeoFOAM::GPUExecutor")


class Raw:
    """untyped storage: size in bytes, the execution space it was requested for"""
    __slots__ = ("bytes", "space")

    def __init__(self, bytes, space):
        self.bytes, self.space = bytes, space


class Freed:
    pass


class Kokkos:
    def __init__(self, X):
        self.X, self.S, self.L = X, X.S, X.loops
        X.kokkos = self
        self.spaces = {}       # heap root -> space

    def pre(self, st, cond, what):
        return ("pre", simp(z3.Implies(z3.And(*st.pc) if st.pc else z3.BoolVal(True), cond)), what)

    # ------------------------------------------------------------------ memory
    def elems(self, st, b, ety):
        """number of elements of type ety in b bytes"""
        ety = ety.strip()
        sz = z3.Int("sizeof(%s)" % ety)
        self.S.fact(sz >= 1)
        b = simp(b)
        if z3.is_app_of(b, z3.Z3_OP_MUL):
            ch = b.children()
            rest = [c for c in ch if not c.eq(sz)]
            if len(rest) == len(ch) - 1:
                return simp(z3.Product(*rest)) if len(rest) > 1 else rest[0]
        if b.eq(sz):
            return iv(1)
        if z3.is_int_value(b) and b.as_long() == 0:
            return iv(0)
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            c, x, y = b.children()
            return simp(z3.If(c, self.elems(st, x, ety), self.elems(st, y, ety)))
        return b / sz

    def typed(self, st, p, ety):
        """the block p points to, viewed as elements of ety"""
        if not isinstance(p, Path):
            return st, p
        v = st.store.get(p.root)
        if isinstance(v, Raw):
            n = self.elems(st, v.bytes, ety)
            so = self.S.sort(ety)
            st = st.copy()
            st.store[p.root] = SeqV(ety, n, z3.Const(fresh_name("uninit"), z3.ArraySort(I, so)))
            return st, Path(p.root, (("i", iv(0)),))
        if isinstance(v, Freed):
            raise Unsupported("use of released storage")
        return st, p

    def space_of(self, st):
        o = st.this
        try:
            v = self.X.read(st, o)
            return str(v.cls)
        except Exception:
            return None

    def f_kokkos_malloc(self, st, vs, n, args):
        b = vs[-1]
        r = fresh_name("heap")
        s = st.copy()
        s.store[r] = Raw(self.X.load(st, b), None)
        self.spaces[r] = self.space_of(st)
        return val(s, Path(r))

    def f_kokkos_realloc(self, st, vs, n, args):
        p, b = vs[0], self.X.load(st, vs[1])
        if p is NULL:
            return self.f_kokkos_malloc(st, [b], n, args)
        old = self.X.root(st, p.root)
        if isinstance(old, Freed):
            s = st.event(self.pre(st, z3.BoolVal(False), "realloc of released storage"))
            return val(s, p)
        r = fresh_name("heap")
        s = st.copy()
        self.spaces[r] = self.space_of(st)
        if isinstance(old, Raw):
            s.store[r] = Raw(b, None)
        else:
            nn = self.elems(st, b, old.ety)
            A = z3.Const(fresh_name("grown"), old.arr.sort())
            t = z3.Int(fresh_name("t"))
            self.L.fact(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < old.n, t < nn), z3.Select(A, t) == z3.Select(old.arr, t)), patterns=[z3.Select(A, t)]))
            s.store[r] = SeqV(old.ety, nn, A)
        if r.split("!")[0] == "heap":
            s = s.event(self.pre(s, z3.BoolVal(self.owns(st, p.root)), "realloc in the space the storage came from"))
        s.store[p.root] = Freed()
        return val(s, Path(r, (("i", iv(0)),)) if not isinstance(old, Raw) else Path(r))

    def owns(self, st, root):
        a, b = self.spaces.get(root), self.space_of(st)
        return a is None or b is None or a == b

    def f_kokkos_free(self, st, vs, n, args):
        p = vs[0]
        if p is NULL:
            return val(st, None)
        if not isinstance(p, Path):
            raise Unsupported("free of %r" % (p,))
        v = self.X.root(st, p.root)
        s = st.event(self.pre(st, z3.BoolVal(not isinstance(v, Freed) and self.owns(st, p.root)), "storage is released once and in the space it came from"))
        s = s.copy()
        s.store[p.root] = Freed()
        return val(s.event(("free", p.root)), None)

    def f_deep_copy(self, st, vs, n, args):
        X = self.X
        d, s_ = X.load(st, vs[0]), X.load(st, vs[1])
        if not (isinstance(d, Opaque) and isinstance(s_, Opaque) and d.what == "kview" and s_.what == "kview"):
            raise Unsupported("deep_copy arguments")
        (dp, dn, dspc), (sp, sn, sspc) = d.extra, s_.extra
        for q, spc, w in ((dp, dspc, "destination"), (sp, sspc, "source")):
            own = self.spaces.get(q.root) if isinstance(q, Path) else None
            if own and spc and own in EXEC_SPACES and spc in EXEC_SPACES:
                # host executors share the host's memory, the GPU executor has its own
                st = st.event(self.pre(st, z3.BoolVal(own.endswith("GPUExecutor") == spc.endswith("GPUExecutor")), "deep_copy reads and writes each block in the memory it lives in (%s)" % w))
        st = st.event(self.pre(st, simp(dn == sn), "deep_copy of views of equal length"))
        if sp is NULL or dp is NULL:
            return val(st.event(self.pre(st, simp(dn == 0), "deep_copy of a null view")), None)
        if not isinstance(dp, Path) or not isinstance(sp, Path):
            raise Unsupported("deep_copy pointers")
        dp, sp = self.elt(dp), self.elt(sp)
        db, sb = Path(dp.root, dp.steps[:-1]), Path(sp.root, sp.steps[:-1])
        if dp.same(sp):
            return val(st, None)
        dv, sv = X.read(st, db), X.read(st, sb)
        if not isinstance(dv, SeqV) or not isinstance(sv, SeqV):
            raise Unsupported("deep_copy of %r" % (type(sv).__name__,))
        do, so = dp.steps[-1][1], sp.steps[-1][1]
        st = st.event(self.pre(st, simp(z3.And(do >= 0, dn >= 0, do + dn <= dv.n)), "deep_copy stays inside the destination"))
        st = st.event(self.pre(st, simp(z3.And(so >= 0, so + sn <= sv.n)), "deep_copy stays inside the source"))
        if z3.is_true(simp(z3.And(do == 0, so == 0))) and self.L.valid(st, dn == dv.n):
            return val(X.write(st, db, SeqV(dv.ety, dv.n, sv.arr)), None)
        A = z3.Const(fresh_name("copied"), dv.arr.sort())
        t = z3.Int(fresh_name("t"))
        self.L.fact(z3.ForAll([t], z3.Select(A, t) == z3.If(z3.And(do <= t, t < do + dn), z3.Select(sv.arr, t - do + so), z3.Select(dv.arr, t)), patterns=[z3.Select(A, t)]))
        return val(X.write(st, db, SeqV(dv.ety, dv.n, A)), None)

    def elt(self, p):
        return p if p.steps and p.steps[-1][0] == "i" else p + ("i", iv(0))

    # ------------------------------------------------------------------ objects
    def construct(self, st, ty, args, n):
        nm = ty.name
        ld = [self.X.load(st, a) for a in args]
        if nm == "Kokkos::RangePolicy":
            b, e = ld[-2], ld[-1]
            if isinstance(ld[0], Opaque) and ld[0].what == "range":
                return val(st, ld[0])
            return val(st, Opaque("range", (b, e)))
        if nm == "Kokkos::View":
            if len(ld) == 1 and isinstance(ld[0], Opaque):
                return val(st, ld[0])
            p = args[0]
            if isinstance(p, Path) and self.S.kind(ty.args[0]) == "ptr" and isinstance(st.store.get(p.root), Path) and not p.steps:
                p = st.store[p.root]
            st, p = self.typed(st, p, ty.args[0].args[0].strip())
            return val(st, Opaque("kview", (p, ld[1], self.space_of(st))))
        if nm in ("Kokkos::Sum", "Kokkos::Max", "Kokkos::Min", "Kokkos::Prod"):
            if isinstance(ld[0], Opaque) and ld[0].what == "reducer":
                return val(st, ld[0])
            return val(st, Opaque("reducer", (nm[8:], args[0], ty.args[0].strip())))
        if nm in SPACES or not args:
            return val(st, Opaque("object " + str(ty)))
        if len(ld) == 1 and isinstance(ld[0], Opaque):
            return val(st, ld[0])
        return None

    # ------------------------------------------------------------------ loops
    def rng(self, st, v):
        r = self.X.load(st, v)
        if not isinstance(r, Opaque) or r.what != "range":
            raise Unsupported("execution policy")
        b, e = r.extra
        if self.L.valid(st, b <= e):
            return b, simp(e - b)
        return b, simp(z3.If(b <= e, e - b, iv(0)))

    def kernel(self, st, b, N, body, private=(), what="kernel", races=True):
        L = self.L
        k0 = st.kernel
        s0 = st.copy()
        s0.kernel = what

        def step(s, j):
            s = s.copy()
            s.kernel = what
            return [Out(o.st, "next") if o.k == "v" else o for o in body(s, simp(b + j))]
        outs = L.run(s0, step, N, parallel=races, what=what, private=set(private))
        for o in outs:
            o.st = o.st.copy()
            o.st.kernel = k0
        return outs

    def f_parallel_for(self, st, vs, n, args):
        pol, f = vs[-2], vs[-1]
        b, N = self.rng(st, pol)
        fv = self.X.load(st, f)
        outs = self.kernel(st, b, N, lambda s, i: self.X.call_value(s, fv, [i]), what="parallel_for")
        return [Out(o.st, "v", None) if o.k == "next" else o for o in outs]

    def identity(self, st, kind, ty):
        so = self.S.sort(ty)
        if kind == "Sum":
            return self.X.value_init(ty, st)[0].v
        if kind == "Max":
            return self.X.std.limit("lowest", ty)
        if kind == "Min":
            return self.X.std.limit("max", ty)
        raise Unsupported("reduction " + kind)

    def f_parallel_reduce(self, st, vs, n, args):
        X = self.X
        pol, f, value = vs[-3], vs[-2], vs[-1]
        b, N = self.rng(st, pol)
        fv = X.load(st, f)
        r = X.load(st, value)
        if isinstance(r, Opaque) and r.what == "reducer":
            kind, target = r.extra[:2]
        else:
            kind, target = "Sum", value
        if not isinstance(target, Path):
            raise Unsupported("reduction result")
        ety = self.argty(args[-1]) if target is value else self.reducer_ty(r)
        s0, p = X.alloc(st, self.identity(st, kind, ety), "reduce")
        outs = self.kernel(s0, b, N, lambda s, i: X.call_value(s, fv, [i, p]), private=[p.root], what="parallel_reduce")
        res = []
        for o in outs:
            if o.k == "next":
                res.append(Out(X.write(o.st, target, X.read(o.st, p)), "v", None))
            else:
                res.append(o)
        return res

    def argty(self, a):
        return self.X.ty(a).strip()

    def reducer_ty(self, r):
        return r.extra[2]

    def f_parallel_scan(self, st, vs, n, args):
        X = self.X
        i = next(k for k, v in enumerate(vs) if isinstance(X.load(st, v), Opaque) and X.load(st, v).what == "range")
        b, N = self.rng(st, vs[i])
        fv = X.load(st, vs[i + 1])
        target = vs[i + 2] if len(vs) > i + 2 else None
        if isinstance(fv, ClosV):
            op = X.clos_op(fv, [None, None, None], st) if False else None
        ety = self.scan_ty(fv)
        s0, p = X.alloc(st, self.X.value_init(ety, st)[0].v, "scan")
        # a pass that is not final must only update the partial result, by the same amount as the final pass
        j = z3.Int(fresh_name("j"))
        sj = s0.assume(z3.And(j >= 0, j < N))
        acc = self.S.fresh(ety)
        sj = X.write(sj, p, acc)
        a = X.call_value(sj, fv, [simp(b + j), p, z3.BoolVal(False)])
        c = X.call_value(sj, fv, [simp(b + j), p, z3.BoolVal(True)])
        pres = []
        for x in a:
            for q, v in x.st.store.items():
                if q in sj.store and q != p.root and v is not sj.store[q]:
                    pres.append((z3.Implies(z3.And(*x.st.pc), z3.BoolVal(False)), "a scan kernel has no effect before the final pass"))
            for y in c:
                pres.append((z3.ForAll([j], z3.Implies(z3.And(*(x.st.pc + y.st.pc)), X.read(x.st, p) - acc == X.read(y.st, p) - acc)) if True else None, "both passes of a scan kernel contribute the same"))
        outs = self.kernel(s0, b, N, lambda s, k: X.call_value(s, fv, [k, p, z3.BoolVal(True)]), private=[p.root], what="parallel_scan")
        res = []
        for o in outs:
            if o.k == "next":
                s = o.st
                for g, w in pres:
                    s = s.event(self.pre(s, simp(g), w))
                if target is not None:
                    s = X.write(s, target, X.read(s, p))
                res.append(Out(s, "v", None))
            else:
                res.append(o)
        return res

    def scan_ty(self, fv):
        if isinstance(fv, St) or isinstance(fv, ClosV):
            for m in (fv.cls if isinstance(fv, ClosV) else self.X.u.find_class(fv.cls)).get("inner", ()):
                if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                    return self.X.ty(self.X.u.params(m)[1]).strip()
        raise Unsupported("scan kernel")

    # ------------------------------------------------------------------ atomics
    def at(self, st, p):
        if not isinstance(p, Path):
            raise Unsupported("atomic on %r" % (p,))
        return st.event(("atomic", p))

    def upd(self, op, fetch=None):
        def f(st, vs, n, args):
            X = self.X
            p = vs[0]
            y = X.load(st, vs[1]) if len(vs) > 1 else iv(1)
            st = self.at(st, p)
            old = X.read(st, p)
            tk = None
            if fetch and op == "+" and isinstance(old, z3.ExprRef) and z3.is_int(old) and isinstance(y, z3.ExprRef) and z3.is_int_value(y) and y.as_long() == 1 and not str(p.root).startswith("local"):
                tk = self.L.ticket(st, p, self.nid(args[0]))
            if op is None:
                st2 = X.write(st, p, self.S.coerce_real(y) if z3.is_expr(y) and z3.is_expr(old) and z3.is_real(old) and z3.is_int(y) else y)
                return val(st2, old if fetch == "old" else None)
            if isinstance(old, z3.ExprRef):
                ty = self.X.ty(args[0]).strip()
                ety = ty.args[0].strip() if ty.args else ty
                outs = X.arith(st, op, old, y, ety, ety)
            else:
                outs = self.user_op(st, op, p, vs[1])
            r = []
            for o in outs:
                nv = X.load(o.st, o.v)
                s = X.write(o.st, p, nv)
                if tk is not None:
                    r.append(Out(s, "v", tk if fetch == "old" else simp(tk + 1)))
                    continue
                r.append(Out(s, "v", old if fetch == "old" else nv if fetch == "new" else None))
            return r
        return f

    def nid(self, n):
        return n["id"]

    def user_op(self, st, op, a, b):
        X = self.X
        v = X.read(st, a)
        cls = X.u.find_class(v.cls)
        for m in X.u.methods(cls):
            if m.get("name") == "operator" + op and len(X.u.params(m)) == 1 and str(X.ty(X.u.params(m)[0]).strip()) == str(v.cls):
                if not isinstance(b, Path):
                    st, b = X.alloc(st, b, "operand")
                return X.method_call(st, a, m, [b])
        raise Unsupported("atomic %s on %s" % (op, v.cls))

    def f_fence(self, st, vs, n, args):
        return val(st, None)

    def f_device_id(self, st, vs, n, args):
        return val(st, z3.Int(fresh_name("device")))

    # ------------------------------------------------------------------ dispatch
    def call(self, name, n, d, args, st):
        name = str(name)
        X = self.X
        f = getattr(self, "f_" + name, None)
        if f is None and name.startswith("atomic_"):
            f = {"atomic_add": self.upd("+"), "atomic_sub": self.upd("-"), "atomic_increment": self.upd("+"), "atomic_decrement": self.upd("-"),
                 "atomic_assign": self.upd(None), "atomic_store": self.upd(None), "atomic_fetch_add": self.upd("+", "old"), "atomic_fetch_sub": self.upd("-", "old"),
                 "atomic_add_fetch": self.upd("+", "new"), "atomic_sub_fetch": self.upd("-", "new"), "atomic_exchange": self.upd(None, "old")}.get(name)
        if f is None:
            return None
        X.trusted.add("Kokkos::" + name)
        args = [a for a in args if not (a["kind"] == "CXXDefaultArgExpr" and not X.kids(a))]
        return X.evs(args, st, lambda s, vs: f(s, vs, n, args))
