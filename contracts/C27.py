"""C27: halo exchange buffers give every rank a private, correctly sized slot; nothing is resized under way.

The buffer is seen through its parts, found by kind: one block of bytes, one table of byte offsets (one more
entry than ranks), one table of request handles, one element size, one tag, the environment.  Read in a build
with debug assertions (NF_DEBUG), where 'cannot be re-initialised' is enforced by the program itself."""
from .common import *
from cxv.sym import Out
from cxv.units import MPI

UNIT = MPI
HD = "NeoFOAM::mpi::HalfDuplexCommBuffer"
ENV = "NeoFOAM::mpi::MPIEnvironment"
TYPES = [("char", 1), ("int", 4), ("double", 8), ("NeoFOAM::Vector", 24)]
NULLREQ = 0x2c000000
BIG = 2 ** 40
M = "NeoFOAMmpi::MPI_"


class B:
    """the parts of a buffer value"""

    def __init__(self, c, v):
        self.c = c
        self.v = v
        # element type tells the three tables apart
        rank = {"char": [], "int": [], "size_t": []}
        for k, x in v.f.items():
            if isinstance(x, SeqV):
                e = str(x.ety.strip())
                rank["char" if e == "char" else "int" if e in ("int", "NeoFOAMmpi::MPI_Request", "MPI_Request") else "size_t"].append((k, x))
        if any(len(q) != 1 for q in rank.values()):
            raise Unsupported("representation: expected one table of bytes, of requests and of offsets")
        (self.kb, self.bytes), (self.kr, self.req), (self.ko, self.off) = rank["char"][0], rank["int"][0], rank["size_t"][0]
        self.env = None
        ints = []
        for k, x in v.f.items():
            if isinstance(x, St):
                self.ke, self.env = k, x
            elif isinstance(x, z3.ExprRef) and z3.is_int(x):
                ints.append((k, x))
        ty = {}
        for k, x in ints:
            t = str([f for f in c.u.fields(c.u.find_class(v.cls)) if f[0] == k][0][1].strip())
            ty.setdefault("tag" if t == "int" else "ts", []).append((k, x))
        if len(ty.get("tag", ())) != 1 or len(ty.get("ts", ())) != 1 or self.env is None:
            raise Unsupported("representation: expected one tag, one element size and an environment")
        (self.kt, self.tag), (self.ks, self.ts) = ty["tag"][0], ty["ts"][0]

    def o(self, r):
        return z3.Select(self.off.arr, r)


def env(c, st, name, n):
    """an environment of n ranks; returns its value"""
    st, p, v = c.obj(st, ENV, name)
    f = c.fn(ENV + "::sizeRank")
    o = c.call(st, f, p)
    (o,) = [x for x in o if x.k == "v"]
    st = o.st.assume(o.v == n)
    o = c.call(st, c.fn(ENV + "::rank"), p)
    (o,) = [x for x in o if x.k == "v"]
    st = o.st.assume(z3.And(o.v >= 0, o.v < n))
    for x in v.f.values():
        if isinstance(x, z3.ExprRef) and z3.is_int(x):
            st = st.assume(z3.And(x >= 0, x < 2 ** 31))
    return st, v


def ranks(c):
    def abort(X, d, st, this, args):
        X.trusted.add("MPI_Abort: ends the program")
        return [Out(st, "exit", iv(1))]
    c.X.contracts[M + "Abort"] = abort
    n = z3.Int("nranks")
    for t, k in TYPES:
        c.X.sizes[str(c.T(t).strip())] = k
    c.S.fact(z3.And(n >= 1, n < 2 ** 20))
    return n


def counts(c, name="count"):
    """the announced number of elements per rank"""
    f = z3.Function(name, I, I)
    t = z3.Int(fresh_name("t"))
    c.S.fact(z3.ForAll([t], z3.And(f(t) >= 0, f(t) < 2 ** 20), patterns=[f(t)]))
    return f


def laid_out(c, b, n, cnt, ts):
    """offsets: consecutive slots of count * element size bytes from 0, all inside the block"""
    t = z3.Int(fresh_name("t"))
    return [("one offset per rank and the end", b.off.n == n + 1),
            ("the first slot starts at 0", b.o(iv(0)) == 0),
            ("each slot has count * element size bytes and the next starts where it ends", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), b.o(t + 1) == b.o(t) + cnt(t) * ts))),
            ("the block holds every slot", b.o(n) <= b.bytes.n),
            ("one request handle per rank", b.req.n == n)]


def buffer(c, n, cnt, ts, inited=None, name="buf"):
    """an arbitrary buffer laid out for counts cnt and element size ts"""
    st = c.state()
    st, e = env(c, st, name + "_env", n)
    st, p, v = c.obj(st, HD, name)
    b = B(c, v)
    v = v.with_(b.ke, e)
    st = c.X.write(st, p, v)
    b = B(c, v)
    for w, g in laid_out(c, b, n, cnt, ts):
        st = st.assume(g)
    P = c.sumf(lambda j: cnt(j) * ts, I)
    t, q = z3.Int(fresh_name("t")), z3.Int(fresh_name("q"))
    # consequences of the layout (induction over ranks): offsets are monotone and bounded by the end
    st = st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t <= n), z3.And(b.o(t) >= 0, b.o(t) <= b.o(n)))))
    st = st.assume(z3.And(b.ts == ts, b.tag >= -1, b.bytes.n >= 0, b.bytes.n < 2 ** 62, b.o(n) < 2 ** 31))
    if inited is not None:
        st = st.assume((b.tag != -1) if inited else (b.tag == -1))
    return st, p, v, b


def same_but(c, s, p, v, keys):
    w = c.X.read(s, p)
    return [("%s unchanged" % k, c.same(w.f[k], v.f[k])) for k in v.f if k not in keys]


def isinit(c, st, p):
    (o,) = [x for x in c.call(st, c.fn(HD + "::isCommInit"), p) if x.k == "v"]
    return o.v


def tail(c, r, b0, n):
    """the bytes already in the block stay"""
    t = z3.Int(fresh_name("t"))
    return ("the block never shrinks", r.bytes.n >= b0.bytes.n)


def setcomm(ty, size):
    def f(c):
        n, cnt = ranks(c), counts(c)
        st, e = env(c, c.state(), "env", n)
        st, p, v = c.obj(st, HD, "buf")
        b = B(c, v)
        v = v.with_(b.ke, e)
        st = c.X.write(st, p, v)
        m = z3.Int("m")
        arg = SeqV(c.T("size_t"), m, z3.Const("sizes", z3.ArraySort(I, I)))
        t = z3.Int(fresh_name("t"))
        st = st.assume(z3.And(m >= 0, m < 2 ** 20, z3.ForAll([t], z3.And(arg.arr[t] >= 0, arg.arr[t] < 2 ** 20))))
        cnt = lambda t: z3.Select(arg.arr, t)
        for k in (b.bytes, b.req, b.off):
            st = st.assume(z3.And(k.n >= 0, k.n < 2 ** 62))
        st, pa = c.put(st, arg, "sizes_arg")
        q = z3.Int(fresh_name("q"))
        st = st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < b.req.n), b.req.arr[q] == NULLREQ)))
        was = isinit(c, st, p)
        d = [x for x in c.u.find_functions(HD + "::setCommRankSize") if tn(x, c) == [str(c.T(ty))]]
        outs = c.call(st, one(d, "setCommRankSize<%s>" % ty), p, [pa])

        def ret(s, _):
            w = B(c, c.X.read(s, p))
            q = z3.Int(fresh_name("q"))
            return [("only when not under way", z3.Not(was)), ("only with one size per rank", m == n)] + laid_out(c, w, n, cnt, size) + \
                [("element size is that of the type", w.ts == size), tail(c, w, b, n), ("no request pending", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), w.req.arr[q] == NULLREQ)))] + \
                same_but(c, s, p, v, {w.kb, w.kr, w.ko, w.ks})
        c.expect("setCommRankSize<%s>" % ty, outs, ret, exit=lambda s: [("stops only if under way or the number of sizes is wrong", z3.Or(was, m != n))], cover=("v", "exit"))
    return f


def tn(x, c):
    return [str(c.T(a)) for a in c.u.targs(x)]


def one(d, what):
    if len(d) != 1:
        raise Unsupported("%d instances of %s" % (len(d), what))
    return d[0]


def ofT(c, name, ty, const=None):
    d = [x for x in c.u.find_functions(HD + "::" + name, const=const) if tn(x, c) == [str(c.T(ty))]]
    return one(d, "%s<%s>" % (name, ty))


def init(ty, size, old):
    def f(c):
        n, cnt = ranks(c), counts(c)
        st, p, v, b = buffer(c, n, cnt, old)
        st, ps, nm = string(c, st, "commName")
        was = isinit(c, st, p)
        outs = c.call(st, ofT(c, "initComm", ty), p, [ps])

        def ret(s, _):
            w = B(c, c.X.read(s, p))
            return [("only when not under way", z3.Not(was)), ("now under way", isinit(c, s, p)), ("element size is that of the type", w.ts == size),
                    ("message tag is one MPI allows", z3.And(w.tag >= 0, w.tag <= 32767)), tail(c, w, b, n)] + \
                [("every rank keeps its count: " + k, g) for k, g in laid_out(c, w, n, cnt, size)] + same_but(c, s, p, v, {w.kb, w.ko, w.ks, w.kt, *[k for k, x in v.f.items() if isinstance(x, z3.ExprRef) and x.sort().eq(Str)]})
        c.expect("initComm<%s> from element size %d" % (ty, old), outs, ret, exit=lambda s: [("stops only if under way", was)], cover=("v", "exit"))
    return f


def get(ty, size, const):
    def f(c):
        n, cnt = ranks(c), counts(c)
        ts = z3.Int("ts")
        for old in [x for _, x in TYPES]:
            st, p, v, b = buffer(c, n, cnt, old, name="buf%d" % old)
            r = z3.Int("rank")
            st = st.assume(z3.And(r >= 0, r < n))
            was = isinit(c, st, p)
            outs = c.call(st, ofT(c, "get", ty, const), p, [r])

            def ret(s, x):
                if not isinstance(x, SpanV):
                    raise Unsupported("get returns %r" % (x,))
                bp = x.base
                off = x.off
                st_ = list(bp.steps)
                if st_ and st_[-1][0] == "as":
                    ety = st_.pop()[1]
                    if st_ and st_[-1][0] == "i":
                        off = st_.pop()[1] + x.off * size
                else:
                    ety, off = x.ety, x.off * size
                return [("only while under way", was), ("only for elements of the initialised size", z3.BoolVal(old == size)),
                        ("the slot lies in the buffer's own block", z3.BoolVal(bp.root == p.root and st_ == [("f", b.kb)] or same_path(bp.root, st_, p, b.kb))),
                        ("it is a view of elements of the requested type", z3.BoolVal(c.T(ty).strip() == x.ety.strip())),
                        ("it starts at the rank's offset", off == b.o(r)), ("it has exactly the announced number of elements", x.n == cnt(r)),
                        ("it ends where the next rank's slot starts", off + x.n * size == b.o(r + 1)), ("inside the block", z3.And(off >= 0, off + x.n * size <= b.bytes.n)),
                        ("buffer unchanged", c.same(c.X.read(s, p), v))]
            c.expect("get<%s>%s with element size %d" % (ty, " const" if const else "", old), outs, ret, exit=lambda s: [("stops only if not under way or another element size was initialised", z3.Or(z3.Not(was), z3.BoolVal(old != size)))], cover=("v", "exit") if old == size else ("exit",))
    return f


def same_path(root, steps, p, k):
    return root == p.root and len(steps) == 1 and steps[0][0] == "f" and steps[0][1] == k


def disjoint(c):
    """lemma over the layout: slots of different ranks never overlap and stay inside the total"""
    n, cnt = ranks(c), counts(c)
    ts = z3.Int("ts")
    c.S.fact(ts >= 1)
    off = z3.Function("off", I, I)
    t = z3.Int("t")
    r, q = z3.Ints("r q")
    lay = z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(off(t + 1) == off(t) + cnt(t) * ts, cnt(t) * ts >= 0)))
    st = c.state().assume(z3.And(off(0) == 0, lay, 0 <= r, r < n, r < q, q <= n))
    c.prove("layout: [base] the slot after rank r starts where r's ends", st, off(r + 1) == off(r) + cnt(r) * ts)
    st2 = st.assume(z3.And(q < n, off(r) + cnt(r) * ts <= off(q)))
    c.prove("layout: [step] if slot q starts after slot r ends so does slot q + 1", st2, off(r) + cnt(r) * ts <= off(q + 1))
    st3 = st.assume(z3.And(off(q) >= 0, q < n))
    c.prove("layout: [step] offsets stay non-negative", st3, off(q + 1) >= 0)



B_ = z3.BoolSort()


def as_bool(x):
    return x if z3.is_bool(x) else x != 0


def testing(c, done):
    """what MPI_Test is assumed to do, done(i) being whether the operation behind handle i has completed"""
    def test(X, d, st, this, args):
        X.trusted.add("MPI_Test: reports whether the operation behind the handle has completed, clearing the handle if so")
        pr, pf = args[0], args[1]
        f = done(pr.steps[-1][1])
        st = X.write(st, pr, simp(z3.If(f, iv(NULLREQ), X.read(st, pr))))
        st = X.write(st, pf, simp(z3.If(f, iv(1), iv(0))))
        return [Out(st, "v", iv(0))]
    c.X.contracts[M + "Test"] = test


GHOST = ("times", "start", "len", "type", "tag", "comm", "handle")


def posting(c, st, name):
    """what posting a message is assumed to do: it is recorded once, under the rank it goes to or comes from"""
    st = st.copy()
    for g in GHOST:
        st.store["posted_" + g] = SeqV(c.T("int"), iv(BIG), z3.K(I, iv(0)))

    def post(X, d, st, this, args):
        X.trusted.add("MPI_%s: starts one message of the given bytes to or from the given rank and fills in the request handle" % name)
        buf, n, ty, rank, tag, comm, req = args
        steps = list(buf.steps)
        if not steps or steps[-1][0] != "i" or req.steps[-1][0] != "i":
            raise Unsupported("MPI_%s on %r" % (name, buf))
        new = dict(times=None, start=steps[-1][1], len=n, type=ty, tag=tag, comm=comm, handle=req.steps[-1][1])
        c.targets.add((buf.root, tuple(steps[:-1]), req.root, tuple(req.steps[:-1])))
        for g in GHOST:
            pg = Path("posted_" + g, (("i", rank),))
            st = X.write(st, pg, simp(X.read(st, pg) + 1) if g == "times" else new[g])
        st = X.write(st, req, z3.Function("handle_of", I, I)(rank))
        return [Out(st, "v", iv(0))]
    c.targets = set()
    c.X.contracts[M + name] = post
    return st


def complete(c):
    n, cnt = ranks(c), counts(c)
    st, p, v, b = buffer(c, n, cnt, 8)
    done = z3.Function("completed", I, B_)
    testing(c, done)
    was = isinit(c, st, p)
    outs = c.call(st, c.fn(HD + "::isComplete"), p)
    t = z3.Int("t")

    def ret(s, r):
        w = B(c, c.X.read(s, p))
        q = z3.Int(fresh_name("q"))
        alld = z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), done(t)))
        return [("only while under way", was), ("true exactly if the operation of every rank has completed", as_bool(r) == alld),
                ("then no request is left", z3.Implies(as_bool(r), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), w.req.arr[q] == NULLREQ)))),
                ("a request is dropped only when completed", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Or(w.req.arr[q] == b.req.arr[q], z3.And(done(q), w.req.arr[q] == NULLREQ))))),
                ("one request handle per rank", w.req.n == n)] + same_but(c, s, p, v, {w.kr})
    c.expect("isComplete", outs, ret, exit=lambda s: [("stops only if not under way", z3.Not(was))], cover=("v", "exit"))


def transfer(which, mname):
    def f(c):
        n, cnt = ranks(c), counts(c)
        st, p, v, b = buffer(c, n, cnt, 8)
        done = z3.Function("completed", I, B_)
        testing(c, done)
        st = posting(c, st, mname)
        was = isinit(c, st, p)
        (o,) = [x for x in c.call(st, c.fn(ENV + "::comm"), p + ("f", b.ke)) if x.k == "v"]
        comm = o.v
        outs = c.call(st, c.fn(HD + "::" + which), p)
        t = z3.Int("t")

        def ret(s, _):
            w = B(c, c.X.read(s, p))
            g = {k: s.store["posted_" + k].arr for k in GHOST}
            q = z3.Int(fresh_name("q"))
            inr = z3.And(0 <= q, q < n)
            some = z3.And(inr, cnt(q) > 0)
            fa = lambda h, x: z3.ForAll([q], z3.Implies(h, x))
            own = all(k[0] == p.root and k[1] == (("f", b.kb),) and k[2] == p.root and k[3] == (("f", b.kr),) for k in c.targets)
            return [("only while under way and not active", z3.And(was, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), done(t))))),
                    ("one message per rank with a non-empty slot, none for the others", fa(inr, g["times"][q] == z3.If(cnt(q) > 0, iv(1), iv(0)))),
                    ("no message to a rank that does not exist", fa(z3.Not(inr), g["times"][q] == 0)),
                    ("the message is the rank's own slot", fa(some, z3.And(g["start"][q] == b.o(q), g["len"][q] == cnt(q) * 8))),
                    ("from this buffer's block and requests", z3.BoolVal(own)),
                    ("as bytes", fa(some, g["type"][q] == 1)), ("with this communication's tag", fa(some, g["tag"][q] == b.tag)), ("over this environment's communicator", fa(some, g["comm"][q] == comm)),
                    ("under the rank's own request handle", fa(some, g["handle"][q] == q)), ("which is kept", fa(some, w.req.arr[q] == z3.Function("handle_of", I, I)(q)))] + same_but(c, s, p, v, {w.kr})
        c.expect(which, outs, ret, exit=lambda s: [("stops only if not under way or still active", z3.Or(z3.Not(was), z3.Exists([t], z3.And(0 <= t, t < n, z3.Not(done(t))))))], cover=("v", "exit"))
    return f


def finalise(c):
    n, cnt = ranks(c), counts(c)
    st, p, v, b = buffer(c, n, cnt, 8)
    done = z3.Function("completed", I, B_)
    testing(c, done)
    was = isinit(c, st, p)
    outs = c.call(st, c.fn(HD + "::finaliseComm"), p)
    t = z3.Int("t")
    alld = z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), done(t)))

    def ret(s, _):
        w = B(c, c.X.read(s, p))
        q = z3.Int(fresh_name("q"))
        return [("only while under way and with every operation completed", z3.And(was, alld)), ("no longer under way", z3.Not(isinit(c, s, p))),
                ("no request left", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), w.req.arr[q] == NULLREQ)))] + \
            same_but(c, s, p, v, {w.kr, w.kt, *[k for k, x in v.f.items() if isinstance(x, z3.ExprRef) and x.sort().eq(Str)]})
    c.expect("finaliseComm", outs, ret, exit=lambda s: [("stops only if not under way or still active", z3.Or(z3.Not(was), z3.Not(alld)))], cover=("v", "exit"))


def make(c):
    """the constructor lays the buffer out in bytes"""
    n, cnt = ranks(c), counts(c)
    st, e = env(c, c.state(), "env", n)
    st, pe = c.put(st, e, "env_arg")
    arr = z3.Const("sizes", z3.ArraySort(I, I))
    t = z3.Int(fresh_name("t"))
    m = z3.Int("m")
    arg = SeqV(c.T("size_t"), m, arr)
    st = st.assume(z3.And(m >= 0, m < 2 ** 20, z3.ForAll([t], z3.And(arr[t] >= 0, arr[t] < 2 ** 20))))
    st, pa = c.put(st, arg, "sizes_arg")
    outs = c.new(st, HD, [ENV, "std::vector<size_t>"], [pe, pa])

    def ret(s, r):
        w = B(c, r)
        s, p = c.put(s, r, "made")
        q = z3.Int(fresh_name("q"))
        return laid_out(c, w, n, lambda t: arr[t], 1) + [("one size per rank", m == n), ("not under way", z3.Not(isinit(c, s, p))), ("in bytes", w.ts == 1), ("environment kept", c.same(w.env, e)),
                                                      ("no request pending", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), w.req.arr[q] == NULLREQ)))]
    c.expect("HalfDuplexCommBuffer(environment, sizes)", outs, ret, exit=lambda s: [("stops only if the number of sizes is wrong", m != n)], cover=("v", "exit"))


def environment(c):
    """the environment reports the communicator's rank and size as MPI does"""
    st = c.state()
    rk, sz, cm = z3.Ints("mpi_rank mpi_size comm_group")
    st = st.assume(z3.And(0 <= rk, rk < sz, sz < 2 ** 31, cm >= 0, cm < 2 ** 31))

    def tell(what, v):
        def h(X, d, s, this, args):
            X.trusted.add("MPI_Comm_rank, MPI_Comm_size: report the rank and size of the communicator")
            s = X.write(s, args[1], z3.If(args[0] == cm, v, z3.Int(fresh_name("other"))))
            return [Out(s, "v", iv(0))]
        return h
    ranks(c)
    c.X.contracts[M + "Comm_rank"] = tell("rank", rk)
    c.X.contracts[M + "Comm_size"] = tell("size", sz)
    outs = c.new(st, ENV, ["NeoFOAMmpi::MPI_Comm"], [cm])

    def ret(s, r):
        s, p = c.put(s, r, "env")
        g = {}
        for k in ("sizeRank", "rank", "comm"):
            (o,) = [x for x in c.call(s, c.fn(ENV + "::" + k), p) if x.k == "v"]
            g[k] = o.v
        return [("size", g["sizeRank"] == sz), ("rank", g["rank"] == rk), ("communicator", g["comm"] == cm), ("not the null communicator", cm != 0x04000000)]
    c.expect("MPIEnvironment", outs, ret, exit=lambda s: [("stops only for the null communicator", cm == 0x04000000)], cover=("v", "exit"))



FD = "NeoFOAM::mpi::FullDuplexCommBuffer"


def full(c):
    """a full-duplex buffer: two half-duplex ones, laid out for the counts of both directions"""
    n = ranks(c)
    st, p, v = c.obj(c.state(), FD, "full")
    hs = [k for k, x in v.f.items() if isinstance(x, St)]
    if len(hs) != 2:
        raise Unsupported("representation: expected two half-duplex buffers")
    cnts = {}
    for k in hs:
        cnts[k] = counts(c, "count_" + k)
        st2, q, w, b = buffer(c, n, cnts[k], 8, name="half_" + k)
        st = st.assume(*st2.pc) if False else assume_all(st, st2.pc)
        v = v.with_(k, w)
    st = c.X.write(st, p, v)
    return n, st, p, v, hs, cnts


def assume_all(st, pc):
    for x in pc:
        st = st.assume(x)
    return st


def halfof(c, x, p, hs):
    """the half a returned slot lies in, with its offset in bytes"""
    if not isinstance(x, SpanV) or x.base.root != p.root or len(x.base.steps) < 2 or x.base.steps[0][1] not in hs:
        raise Unsupported("slot %r" % (x,))
    st_ = list(x.base.steps)
    off = x.off * 8
    if st_[-1][0] == "as":
        st_.pop()
        if st_[-1][0] == "i":
            off = st_.pop()[1] + off
    return st_[0][1], off


def fullget(c):
    """send and receive slots are those of the two distinct halves"""
    n, st, p, v, hs, cnts = full(c)
    r = z3.Int("rank")
    st = st.assume(z3.And(r >= 0, r < n))
    sides = {}
    for name in ("getSend", "getReceive"):
        for const in (False, True):
            d = [x for x in c.u.find_functions(FD + "::" + name, const=const) if tn(x, c) == [str(c.T("double"))]]
            outs = c.call(st, one(d, name), p, [r])

            def ret(s, x):
                k, off = halfof(c, x, p, hs)
                b = B(c, v.f[k])
                sides.setdefault(name, set()).add(k)
                return [("the slot of that rank", off == b.o(r)), ("with the announced number of elements", x.n == cnts[k](r)), ("nothing changes", c.same(c.X.read(s, p), v))]
            c.expect("%s%s" % (name, " const" if const else ""), outs, ret, exit=lambda s: [("stops only if not under way", z3.Or(*[z3.Not(isinit(c, st, p + ("f", k))) for k in hs]))], cover=("v",))
    c.prove("send and receive slots come from different blocks", c.state(), z3.BoolVal(sides.get("getSend", set()).isdisjoint(sides.get("getReceive", {None})) and len(sides.get("getSend", ())) == 1))


def side(c, st, p, hs, name):
    """which half serves that direction"""
    d = [x for x in c.u.find_functions(FD + "::" + name, const=False) if tn(x, c) == [str(c.T("double"))]]
    for o in c.call(st, one(d, name), p, [iv(0)]):
        if o.k == "v":
            return halfof(c, o.v, p, hs)[0]
    raise Unsupported("no slot")


def fullstart(c):
    n, st, p, v, hs, cnts = full(c)
    done = z3.Function("completed", I, B_)
    testing(c, done)
    sk, rk = side(c, st, p, hs, "getSend"), side(c, st, p, hs, "getReceive")
    st = posting(c, st, "Isend")
    seen = c.targets
    sent = {g: "posted_" + g for g in GHOST}
    st = st.copy()
    for g in GHOST:
        st.store["sent_" + g] = st.store["posted_" + g]
    send = c.X.contracts[M + "Isend"]
    st = posting(c, st, "Irecv")
    recv = c.X.contracts[M + "Irecv"]
    got = c.targets

    def isend(X, d, s, this, args):
        c.targets = seen
        s = s.copy()
        for g in GHOST:
            s.store["keep_" + g], s.store["posted_" + g] = s.store["posted_" + g], s.store["sent_" + g]
        outs = send(X, d, s, this, args)
        for o in outs:
            for g in GHOST:
                o.st.store["sent_" + g], o.st.store["posted_" + g] = o.st.store["posted_" + g], o.st.store["keep_" + g]
                del o.st.store["keep_" + g]
        c.targets = got
        return outs
    c.X.contracts[M + "Isend"] = isend
    was = {k: isinit(c, st, p + ("f", k)) for k in hs}
    outs = c.call(st, c.fn(FD + "::startComm"), p)
    t = z3.Int("t")

    def ret(s, _):
        q = z3.Int(fresh_name("q"))
        g = [("only while both are under way", z3.And(*was.values())),
             ("sends come from the send block, receives go to the receive block", z3.BoolVal(all(k[1][0] == ("f", sk) for k in seen) and all(k[1][0] == ("f", rk) for k in got) and bool(seen) and bool(got)))]
        for k, pre, what in ((sk, "sent_", "sent"), (rk, "posted_", "received")):
            b = B(c, v.f[k])
            a = {x: s.store[pre + x].arr for x in GHOST}
            inr = z3.And(0 <= q, q < n)
            some = z3.And(inr, cnts[k](q) > 0)
            g += [("one message %s per rank with a non-empty slot" % what, z3.ForAll([q], z3.Implies(inr, a["times"][q] == z3.If(cnts[k](q) > 0, iv(1), iv(0))))),
                  ("the slot %s is the rank's own" % what, z3.ForAll([q], z3.Implies(some, z3.And(a["start"][q] == b.o(q), a["len"][q] == cnts[k](q) * 8)))),
                  ("the message %s has its communication's tag" % what, z3.ForAll([q], z3.Implies(some, a["tag"][q] == b.tag)))]
        return g
    c.expect("startComm", outs, ret, exit=lambda s: [("stops only if not under way or still active", z3.Or(*[z3.Not(x) for x in was.values()], z3.Exists([t], z3.And(0 <= t, t < n, z3.Not(done(t))))))], cover=("v", "exit"))


def fullinit(c):
    n, st, p, v, hs, cnts = full(c)
    st, ps, nm = string(c, st, "commName")
    was = {k: isinit(c, st, p + ("f", k)) for k in hs}
    d = [x for x in c.u.find_functions(FD + "::initComm") if tn(x, c) == [str(c.T("double"))]]
    outs = c.call(st, one(d, "initComm"), p, [ps])

    def ret(s, _):
        w = c.X.read(s, p)
        bs = [B(c, w.f[k]) for k in hs]
        g = [("only when neither is under way", z3.And(*[z3.Not(x) for x in was.values()])), ("both are now under way", z3.And(*[isinit(c, s, p + ("f", k)) for k in hs])), ("both directions use the same tag", bs[0].tag == bs[1].tag)]
        for k, b in zip(hs, bs):
            g += [("%s keeps its counts: %s" % (k, x), y) for x, y in laid_out(c, b, n, cnts[k], 8)]
        return g
    c.expect("FullDuplexCommBuffer::initComm", outs, ret, exit=lambda s: [("stops only if under way", z3.Or(*was.values()))], cover=("v", "exit"))


def fullmake(c):
    n = ranks(c)
    st, e = env(c, c.state(), "env", n)
    st, pe = c.put(st, e, "env_arg")
    ms, arrs, ps = [], [], []
    for k in ("send", "receive"):
        arr, m, t = z3.Const(k + "_sizes", z3.ArraySort(I, I)), z3.Int("m_" + k), z3.Int(fresh_name("t"))
        st = st.assume(z3.And(m >= 0, m < 2 ** 20, z3.ForAll([t], z3.And(arr[t] >= 0, arr[t] < 2 ** 20))))
        st, pa = c.put(st, SeqV(c.T("size_t"), m, arr), k + "_arg")
        ms.append(m), arrs.append(arr), ps.append(pa)
    outs = c.new(st, FD, [ENV, "std::vector<size_t>", "std::vector<size_t>"], [pe] + ps)

    def ret(s, r):
        # the directions are told apart by what getSend and getReceive return in an initialised copy
        s, p = c.put(s, r, "made")
        hs = [k for k, x in r.f.items() if isinstance(x, St)]
        s0, nm0 = c.put(s, c.S.fresh(c.T("std::string"), "nm"), "nm")
        d = [x for x in c.u.find_functions(FD + "::initComm") if tn(x, c) == [str(c.T("double"))]]
        sk = rk = None
        for o in c.call(s0, one(d, "initComm"), p, [nm0]):
            if o.k == "v":
                sk, rk = side(c, o.st, p, hs, "getSend"), side(c, o.st, p, hs, "getReceive")
        g = [("one size per rank and direction", z3.And(ms[0] == n, ms[1] == n)), ("two separate blocks", z3.BoolVal(sk is not None and sk != rk))]
        for k, arr, what in ((sk, arrs[0], "send"), (rk, arrs[1], "receive")):
            g += [("%s: %s" % (what, x), y) for x, y in laid_out(c, B(c, r.f[k]), n, lambda t, a=arr: a[t], 1)]
        return g
    c.expect("FullDuplexCommBuffer(environment, sizes, sizes)", outs, ret, exit=lambda s: [("stops only if a number of sizes is wrong", z3.Or(ms[0] != n, ms[1] != n))], cover=("v", "exit"))


CONTRACTS = []
for _t, _s in TYPES:
    CONTRACTS.append(("setCommRankSize<%s>" % _t, setcomm(_t, _s)))
for _t, _s in TYPES:
    for _, _o in TYPES:
        CONTRACTS.append(("initComm<%s> from %d" % (_t, _o), init(_t, _s, _o)))
for _t, _s in TYPES:
    CONTRACTS.append(("get<%s>" % _t, get(_t, _s, False)))
    CONTRACTS.append(("get<%s> const" % _t, get(_t, _s, True)))
CONTRACTS += [("layout", disjoint), ("isComplete", complete), ("send", transfer("send", "Isend")), ("receive", transfer("receive", "Irecv")), ("finaliseComm", finalise), ("constructor", make), ("MPIEnvironment", environment),
              ("full get", fullget), ("full start", fullstart), ("full init", fullinit), ("full make", fullmake)]
