"""Obligations: every contract clause becomes a named formula that must be discharged for all inputs."""
import subprocess, time, tempfile, os, traceback, z3
from .ast import Ty, Unsupported, Unit, FrontendError
from .sym import *
from .exec import Exec, has_quant
from .poly import Poly, nonlinear


class Obligation:
    def __init__(self, name, status, backend, secs, detail="", fn=""):
        self.name, self.status, self.backend, self.secs, self.detail, self.fn = name, status, backend, secs, detail, fn


class Ctx:
    """one property's proof session over one extracted unit"""
    in_poly = False

    def __init__(self, pid, unit, timeout=10):
        self.pid, self.u = pid, unit
        self.X = Exec(unit)
        self.S = self.X.S
        self.obl = []
        self.undecided = []     # (function, reason)
        self.timeout = timeout
        self.contracts = []     # (function, spec text)
        self.deadline = None
        self.only = None       # the kind of obligations this run is about
        self.stop_on_fail = False
        self.nraces = 0
        from .sums import Sums
        self.sums = Sums(self)

        def demangle(X, d, st, this, args):
            X.trusted.add("NeoFOAM::demangle (wraps abi::__cxa_demangle): returns some string, no other effect")
            return [Out(st, "v", X.S.fresh(self.T("std::string"), "demangled"))]
        self.X.contracts["NeoFOAM::demangle"] = demangle

    # ------------------------------------------------------------------ building states
    def T(self, s):
        return self.u.types.parse(s)

    def state(self):
        return State()

    def obj(self, st, ty, name):
        """an arbitrary object of class ty; returns state, path, value"""
        ty = self.T(ty) if isinstance(ty, str) else ty
        v = self.S.fresh(ty, name)
        st = st.copy()
        st.store[name] = v
        return st, Path(name), v

    def put(self, st, v, hint):
        return self.X.alloc(st, v, hint)

    def fn(self, qn, params=None, cls=None, const=None, targs=None, which=None):
        fs = self.u.find_functions(qn, params, cls, const, targs)
        if which is not None:
            fs = [f for f in fs if which(f)]
        if not fs:
            raise Unsupported("no function %s%s in the current source" % (qn, "(%s)" % ", ".join(params) if params is not None else ""))
        if len(fs) > 1:
            raise Unsupported("%d functions match %s: %s" % (len(fs), qn, [self.u.sig(f) for f in fs][:4]))
        return fs[0]

    def mapf(self, v):
        """the map inside a value (found by kind, not by name): (path steps, MapV)"""
        r = list(self._find(v, MapV))
        if len(r) != 1:
            raise Unsupported("representation: expected one map, found %d" % len(r))
        return r[0]

    def seqf(self, v):
        r = list(self._find(v, SeqV))
        if len(r) != 1:
            raise Unsupported("representation: expected one sequence, found %d" % len(r))
        return r[0]

    def _find(self, v, k, steps=()):
        if isinstance(v, k):
            yield steps, v
        elif isinstance(v, St):
            for n, x in v.f.items():
                yield from self._find(x, k, steps + (("f", n),))

    def call(self, st, d, this=None, args=()):
        return self.X.call(st, d, this, list(args))

    def new(self, st, ty, params, args):
        """run a constructor; the value outs carry the object"""
        ty = self.T(ty) if isinstance(ty, str) else ty
        cls = self.u.find_class(ty)
        if cls is None:
            raise Unsupported("no class %s" % ty)
        want = [str(self.T(p)) for p in params]
        rv = any(p.endswith("&&") for p in params)
        for m in self.X.ctors(cls):
            if ("&&" in m["type"]["qualType"]) != rv:
                continue
            ps = [str(self.u.ty(x)) for x in self.u.params(m)]
            if ps == want and not (m.get("_parent") or {}).get("kind") == "FunctionTemplateDecl":
                return self.X.construct(st, ty, m["type"]["qualType"], list(args))
        for m in self.X.ctors(cls):
            ps = [str(self.u.ty(x)) for x in self.u.params(m)]
            if ps == want and self.u.definition(m) is not None and not self.u.is_dependent(m):
                return self.X.construct(st, ty, m["type"]["qualType"], list(args))
        raise Unsupported("no constructor %s(%s)" % (ty, ", ".join(params)))

    def sumf(self, body, so):
        """the specification sum m -> sum of body(j), j in [0, m)"""
        j = z3.Int(fresh_name("j"))
        return self.X.loops.new_sum(simp(body(j)), j, so)

    def sumt(self, body, so, ts=None):
        """the specification sums (m, t) -> sum of body(j, t), j in [0, m)"""
        j = z3.Int(fresh_name("j"))
        t = z3.Const(fresh_name("t"), ts if ts is not None else z3.IntSort())
        return self.X.loops.new_sum(simp(body(j, t)), j, so, t)

    def sum(self, body, m, so):
        return self.sumf(body, so)(m)

    # ------------------------------------------------------------------ obligations
    def hyps(self, st, extra=()):
        return list(st.pc) + list(extra) + self.S.lit_facts() + list(self.S.facts)

    def prove(self, name, st, goal, extra=()):
        t0 = time.time()
        if self.only and self.only not in name:
            return
        if self.deadline and t0 > self.deadline:
            self.record(name, "unknown", "-", 0, "time budget used up")
            return
        goal = simp(goal)
        if z3.is_true(goal):
            # trivially true only if the path is feasible at all; infeasible paths are fine too
            self.record(name, "discharged", "simplify", time.time() - t0)
            return
        H = self.hyps(st, extra)
        if self.X.exact_iters and self.lean(relevant(H, goal, st.pc), goal):
            status, be, det = "discharged", "z3 (E-matching)", ""
        elif self.X.loops.sums and self.sums.has(goal):
            status, det = self.sums.prove(H, goal)
            be = "z3 (sums: linearity and extensionality)"
        else:
            status, be, det = self.solve(H, goal, st)
        if status == "failed" and self.S.taint and any(n.split("!")[0] in self.S.taint for n in syms(z3.And(goal, *st.pc))):
            status, det = "unknown", "refutation depends on an over-approximated value"
        if status == "failed" and self.X.loops.sums and st.pc and self.sums.has(z3.And(*st.pc)):
            status, det = "unknown", "refutation depends on the value of a sum"
        self.record(name, status, be, time.time() - t0, det)

    def lean(self, H, goal):
        # without facts that rarely matter (fewer hypotheses: sound), E-matching only
        for drop in (("range", "zero"), ("range", "writer"), ("range", "zero", "writer")):
            s = z3.Solver()
            s.set("timeout", 5000)
            s.set("mbqi", False)
            s.set("auto_config", False)
            s.add(*[h for h in H if self.S.weak.get(h.get_id(), ("",))[0] not in drop])
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return True
        return False

    def solve(self, H, goal, st=None):
        H = relevant(H, goal, st.pc if st is not None else ())
        if self.X.exact_iters and self.lean(H, goal):
            return "discharged", "z3 (E-matching)", ""
        if nonlinear(goal) and not self.in_poly:
            s = z3.Solver()
            s.set("timeout", 2500)
            s.add(*H)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return "discharged", "z3", ""
            if r == z3.sat:
                return "failed", "z3", model_text(s.model())
            self.in_poly = True
            try:
                if Poly(self).prove(H, goal):
                    return "discharged", "z3 (polynomial normal form)", ""
            finally:
                self.in_poly = False
        s = z3.Solver()
        s.set("timeout", int(self.timeout * 1000))
        s.add(*H)
        s.add(z3.Not(goal))
        try:
            r = s.check()
        except z3.Z3Exception as e:
            return "unknown", "z3", str(e)
        if r == z3.unsat:
            return "discharged", "z3", ""
        if r == z3.sat:
            return "failed", "z3", model_text(s.model())
        # second attempt: E-matching only, other seed
        for opts in ({"smt.mbqi": False, "smt.auto_config": False, "random_seed": 7}, {"smt.auto_config": False, "smt.arith.solver": 2}):
            s2 = z3.Solver()
            try:
                for k, v in opts.items():
                    s2.set(k.replace("smt.", ""), v)
            except z3.Z3Exception:
                pass
            s2.set("timeout", int(self.timeout * 1000))
            s2.add(*H)
            s2.add(z3.Not(goal))
            r = s2.check()
            if r == z3.unsat:
                return "discharged", "z3 (E-matching)", ""
        r = cvc5_check(s.to_smt2(), self.timeout)
        if r == "unsat":
            return "discharged", "cvc5", ""
        # quantifiers make the negation undecided: try to refute on the quantifier-free part only as a hint
        return "unknown", "z3+cvc5", "no answer within %ss" % self.timeout

    def record(self, name, status, be, secs, det=""):
        self.obl.append(Obligation(name, status, be, secs, det))

    def expect(self, name, outs, ret=None, thr=None, exit=None, cover=()):
        """contract of one call.  ret(st, v), thr(st, exception type, value), exit(st) return
        [(clause, goal)]; a kind without handler must be infeasible.  cover: kinds that must be reachable."""
        seen = set()
        done = set()
        for w, pc, g in self.X.loops.races[self.nraces:]:
            self.prove("%s: no data race (%s)" % (name, w), State(), simp(z3.Implies(z3.And(*pc) if pc else z3.BoolVal(True), g)))
        self.nraces = len(self.X.loops.races)
        for i, o in enumerate(outs):
            for e in o.st.log:
                if e[0] == "pre":
                    if e[1].get_id() in done:
                        continue
                    done.add(e[1].get_id())
                    self.prove("%s: precondition of callee (%s)" % (name, e[2]), State(), e[1])
            if o.k == "v":
                h = ret(o.st, o.v) if ret else [("must not return normally", z3.BoolVal(False))]
            elif o.k == "thr":
                h = thr(o.st, str(o.v[0]), o.v[1]) if thr else [("must not throw %s" % o.v[0], z3.BoolVal(False))]
            elif o.k == "exit":
                h = (exit(o.st, o.v) if exit.__code__.co_argcount > 1 else exit(o.st)) if exit else [("must not terminate the program", z3.BoolVal(False))]
            else:
                h = [("unexpected control flow " + o.k, z3.BoolVal(False))]
            for cl, g in h or []:
                self.prove("%s: %s" % (name, cl) + (" [path %d]" % i if len(outs) > 1 else ""), o.st, g)
            if o.k not in seen and self.sat(o.st):
                seen.add(o.k)
        for k in cover if not self.only else ():
            ok = k in seen
            self.record("%s: %s outcome reachable (non-vacuous)" % (name, {"v": "normal", "thr": "exceptional", "exit": "terminating"}[k]),
                        "discharged" if ok else "failed", "z3", 0, "" if ok else "no execution path has this outcome")

    def sat(self, st):
        s = z3.Solver()
        s.set("timeout", 700)
        s.add(*relevant(self.hyps(st), z3.BoolVal(True), st.pc))
        return s.check() != z3.unsat

    def lemma(self, name, goal, hyps=()):
        st = State()
        st.pc = tuple(hyps)
        self.prove(name, st, goal)

    def group(self, name, f, *a):
        """run one function's contract; anything outside reach is recorded as undecided, not as a violation"""
        n0 = len(self.obl)
        try:
            f(*a)
        except Unsupported as e:
            self.undecided.append((name, str(e)))
        except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, StopIteration) as e:
            self.undecided.append((name, "extraction: %s: %s" % (type(e).__name__, str(e)[:300])))
            if os.environ.get("CXV_DEBUG"):
                traceback.print_exc()
        self.contracts.append((name, len(self.obl) - n0))

    # ------------------------------------------------------------------ common clauses
    def same_map(self, a, b):
        """two maps have the same keys and values"""
        k = z3.Const(fresh_name("k"), a.dom.sort().domain())
        return z3.ForAll([k], z3.And(a.dom[k] == b.dom[k], z3.Implies(a.dom[k], a.val[k] == b.val[k])))

    def same_seq(self, a, b):
        t = z3.Int(fresh_name("t"))
        return z3.And(a.n == b.n, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < a.n), z3.Select(a.arr, t) == z3.Select(b.arr, t))))

    def same(self, a, b):
        if isinstance(a, MapV):
            return self.same_map(a, b)
        if isinstance(a, SeqV):
            return self.same_seq(a, b)
        if isinstance(a, St):
            return z3.And(*[self.same(a.f[k], b.f[k]) for k in a.f]) if a.f else z3.BoolVal(True)
        if isinstance(a, OptV):
            return z3.And(a.has == b.has, z3.Implies(a.has, self.same(a.v, b.v)))
        if isinstance(a, VarV):
            return z3.And(a.idx == b.idx, *[z3.Implies(a.idx == i, self.same(x, y)) for i, (x, y) in enumerate(zip(a.vals, b.vals))])
        if isinstance(a, Path):
            return z3.BoolVal(a.same(b)) if isinstance(b, Path) else z3.BoolVal(False)
        if isinstance(a, z3.ExprRef):
            return a == b
        return z3.BoolVal(a is b)


SYMS = {}


def syms(f):
    """uninterpreted symbols of a formula (memoised: the cache keeps the formula alive, so its id stays its own)"""
    r = SYMS.get(f.get_id())
    if r is None or not r[0].eq(f):
        SYMS[f.get_id()] = r = (f, syms0(f))
    return set(r[1])


def syms0(f):
    out = set()
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if not nm.startswith(("inj<", "proj<", "card", "lit:", "concat", "drop", "strless", "empty", "nopay", "to_string", "unstring", "default<")):
                    out.add(nm)
            st.extend(x.children())
    return out


def relevant(H, goal, pc):
    """drop facts that share no uninterpreted symbol with the goal or path condition (sound: fewer hypotheses)"""
    if len(H) < 40:
        return H
    have = syms(goal)
    keep = []
    pcs = {p.get_id() for p in pc}
    rest = []
    for h in H:
        if h.get_id() in pcs:
            keep.append(h)
            have |= syms(h)
        else:
            rest.append((h, syms(h)))
    ch = True
    while ch:
        ch = False
        nr = []
        for h, s in rest:
            if not s or s & have:
                keep.append(h)
                if s - have:
                    have |= s
                    ch = True
            else:
                nr.append((h, s))
        rest = nr
    return keep


def model_text(m):
    out = []
    for d in list(m.decls())[:40]:
        try:
            out.append("%s = %s" % (d.name(), str(m[d])[:160]))
        except Exception:
            pass
    return "\n".join(out)


def cvc5_check(smt2, timeout):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2)
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--full-saturate-quant", f.name], capture_output=True, text=True, timeout=timeout + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "error"
    except Exception:
        return "error"
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass
