"""C24: every registered field keeps its own chain of old-time levels, and the bookkeeping documents name exactly that chain.

The collections are arbitrary finite maps of documents that satisfy the invariant `wf` (stated below); every operation keeps it."""
from .common import *
from cxv.sym import Out
from cxv.units import OLDTIME

UNIT = OLDTIME
CC = "NeoFOAM::finiteVolume::cellCentred::"
OT, OTD, FC, FD = CC + "OldTimeCollection", CC + "OldTimeDocument", CC + "FieldCollection", CC + "FieldDocument"
FT = "NeoFOAM::cxv::FieldT"
STR, INT = "std::string", "int"
I64 = "std::int64_t"
TEXTS = ("nextTime", "previousTime", "currentTime")
INDICES = ("timeIndex", "iterationIndex", "subCycleIndex")
OOR, RUN = "std::out_of_range", "std::runtime_error"


def entry(c, d, name, ty):
    """(present and of this type, value) of an entry of a document's map"""
    k = c.S.lit(name)
    t = c.T(ty).strip()
    return z3.And(d.dom[k], any_is(c, d.val[k], ty)), c.S.from_any(d.val[k], t)


class Docs:
    """the documents of a collection, by key"""

    def __init__(self, c, v, ty):
        self.c, self.ty, self.m = c, ty, mp(c, v)

    def has(self, k):
        return self.m.dom[k]

    def at(self, k):
        return mp(self.c, self.c.S.unpack(self.m.val[k], self.c.T(self.ty)))

    def get(self, k, name, ty=STR):
        return entry(self.c, self.at(k), name, ty)[1]

    def typed(self, k, name, ty):
        return entry(self.c, self.at(k), name, ty)[0]


def each(f, *sorts):
    ks = [z3.Const(fresh_name("k"), s) for s in (sorts or (Str,))]
    return z3.ForAll(ks, f(*ks))


def wf_old(c, D):
    """the documents of an old-time collection: complete, and no two of them have the same next field or the same previous field"""
    a = lambda k: z3.And(*[D.typed(k, n, STR) for n in TEXTS], D.typed(k, "level", INT))
    return [each(lambda k: z3.Implies(D.has(k), a(k))),
            each(lambda k, l: z3.Implies(z3.And(D.has(k), D.has(l), D.get(k, "nextTime") == D.get(l, "nextTime")), k == l), Str, Str),
            each(lambda k, l: z3.Implies(z3.And(D.has(k), D.has(l), D.get(k, "previousTime") == D.get(l, "previousTime")), k == l), Str, Str)]


def old_collection(c, st, name="olds"):
    st, p, v = c.obj(st, OT, name)
    D = Docs(c, v, OTD)
    for x in wf_old(c, D):
        st = st.assume(x)
    return st, p, v, D


def consts(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return set()
    seen.add(t.get_id())
    r = {t} if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else set()
    for x in t.children():
        r |= consts(x, seen)
    return r


def find_contract(c, D):
    """CollectionMixin::find (C04): exactly the keys of the documents the predicate accepts, each once"""
    def h(X, f, st, this, args):
        n0 = int(fresh_name("mark").split("!")[1])
        k = z3.Const(fresh_name("generic"), Str)
        m = mp(c, X.load(st, this))
        s = st.assume(m.dom[k])
        e = c.S.unpack(m.val[k], c.T(D.ty))
        docs = [x for x in e.f.values() if isinstance(x, St)]
        s, pd = c.put(s, docs[0], "document")
        npc = len(s.pc)
        verdict = z3.BoolVal(False)
        for o in X.call_value(s, args[0], [pd]):
            pc = z3.And(*o.st.pc[npc:]) if o.st.pc[npc:] else z3.BoolVal(True)
            if o.k != "v":
                c.prove("looking for a document does not fail", o.st, z3.BoolVal(False))
                continue
            verdict = z3.Or(verdict, z3.And(pc, o.v))
        verdict = simp(verdict)
        for x in consts(verdict):
            nm = str(x)
            if "!" in nm and nm.split("!")[1].isdigit() and int(nm.split("!")[1]) > n0 and not x.eq(k):
                raise Unsupported("a predicate that is not a function of the document (%s)" % nm)
        P = lambda t: z3.substitute(verdict, (k, t))
        r = c.S.fresh(c.T("std::vector<std::string>"), fresh_name("found"))
        inr = lambda t: z3.And(0 <= t, t < r.n)
        t, u = z3.Ints(fresh_name("t") + " " + fresh_name("u"))
        at = z3.Function(fresh_name("position"), Str, I)
        q = z3.Const(fresh_name("k"), Str)
        st = st.assume(z3.And(r.n >= 0, z3.ForAll([t], z3.Implies(inr(t), z3.And(m.dom[r.arr[t]], P(r.arr[t]))), patterns=[r.arr[t]])))
        st = st.assume(z3.ForAll([t, u], z3.Implies(z3.And(inr(t), inr(u), t != u), r.arr[t] != r.arr[u]), patterns=[z3.MultiPattern(r.arr[t], r.arr[u])]))
        st = st.assume(z3.ForAll([q], z3.Implies(z3.And(m.dom[q], P(q)), z3.And(inr(at(q)), r.arr[at(q)] == q)), patterns=[m.dom[q]]))
        return [Out(st, "v", r)]
    c.X.contracts["NeoFOAM::CollectionMixin::find"] = h


def text(c, st, name):
    return string(c, st, name)


# ------------------------------------------------------------------ the documents
def document(c):
    st = c.state()
    given = {}
    args = []
    for n in TEXTS:
        v = c.S.fresh(c.T(STR), n)
        given[n] = v
        args.append(v)
    lv = z3.Int("level")
    args.append(lv)
    for o in c.new(st, OTD, [STR, STR, STR, "int32_t"], args):
        def ret(s, r):
            d = mp(c, r)
            g = [("%s as given" % n, z3.And(*[entry(c, d, n, STR)[0], entry(c, d, n, STR)[1] == given[n]])) for n in TEXTS]
            g.append(("the level as given", z3.And(entry(c, d, "level", INT)[0], entry(c, d, "level", INT)[1] == lv)))
            g.append(("it has an identifier", entry(c, d, "id", STR)[0]))
            k = z3.Const("k", Str)
            g.append(("and nothing else", z3.ForAll([k], z3.Implies(d.dom[k], z3.Or(*[k == c.S.lit(x) for x in TEXTS + ("level", "id")])))))
            return g
        c.expect("OldTimeDocument(next, previous, current, level)", [o], ret, cover=("v",))


def accessors(cls, names):
    """every accessor reads and (non-const) writes exactly its own entry"""
    def f(c):
        for name, ty in names:
            for cst in (False, True):
                ms = [m for m in c.u.find_functions(cls + "::" + name) if c.u.is_const(m) == cst and not c.u.params(m)]
                if not ms:
                    continue
                st, p, v = c.obj(c.state(), cls, "document")
                d = mp(c, v)
                ok, x = entry(c, d, name, ty)
                st = st.assume(ok)
                outs = c.call(st, ms[0], p, [])
                w = c.S.fresh(c.T(ty), "new_value")

                def ret(s, r):
                    g = [("is the entry", c.X.load(s, r) == x), ("reading changes nothing", c.same(c.X.read(s, p), v))]
                    if not cst and isref(r):
                        n = mp(c, c.X.read(c.X.write(s, r, w), p))
                        k = z3.Const("k", Str)
                        g.append(("writing changes exactly this entry", z3.ForAll([k], z3.And(n.dom[k] == d.dom[k], z3.If(k == c.S.lit(name), n.val[k] == c.S.to_any(w, c.T(ty).strip()), z3.Implies(d.dom[k], n.val[k] == d.val[k]))))))
                    elif not cst:
                        g.append(("is a reference to the entry", z3.BoolVal(False)))
                    return g
                c.expect("%s::%s%s" % (cls.split("::")[-1], name, " const" if cst else ""), outs, ret, cover=("v",))
    return f


def look(fn, which):
    """findNextTime / findPreviousTime: the key of the one document naming the field there, or nothing"""
    def f(c):
        st, p, v, D = old_collection(c, c.state())
        find_contract(c, D)
        idv = c.S.fresh(c.T(STR), "id")
        # every stored key is some non-empty text: the empty text means "none"
        empty = c.S.lit("")
        st = st.assume(z3.Not(D.has(empty)))
        outs = c.call(st, c.fn(OT + "::" + fn), p, [idv])

        def ret(s, r):
            r = c.X.load(s, r)
            return [("a result is the key of a document whose %s is the field" % which, z3.Implies(r != empty, z3.And(D.has(r), D.get(r, which) == idv))),
                    ("nothing is found only if no document names the field there", z3.Implies(r == empty, each(lambda k: z3.Implies(D.has(k), D.get(k, which) != idv)))),
                    ("changes nothing", c.same(c.X.read(s, p), v))]
        c.expect("OldTimeCollection::%s" % fn, outs, ret, cover=("v",))
    return f


def found_contract(c, D, fn, which):
    """what `look` proves"""
    def h(X, f, st, this, args):
        idv = X.load(st, args[0])
        d = Docs(c, X.load(st, this), D.ty)
        r = c.S.fresh(c.T(STR), fresh_name(fn))
        e = c.S.lit("")
        st = st.assume(z3.If(r != e, z3.And(d.has(r), d.get(r, which) == idv), each(lambda k: z3.Implies(d.has(k), d.get(k, which) != idv))))
        return [Out(st, "v", r)]
    c.X.contracts[OT + "::" + fn] = h


def current(c):
    """setCurrentFieldAndLevel: one below the document whose previous field is this one's next field, or the first level"""
    st, p, v, D = old_collection(c, c.state())
    found_contract(c, D, "findNextTime", "nextTime")
    found_contract(c, D, "findPreviousTime", "previousTime")
    st, q, dv = c.obj(st, OTD, "document")
    d = mp(c, dv)
    for n in TEXTS:
        st = st.assume(entry(c, d, n, STR)[0])
    st = st.assume(entry(c, d, "level", INT)[0])
    nx = entry(c, d, "nextTime", STR)[1]
    outs = c.call(st, c.fn(OT + "::setCurrentFieldAndLevel"), p, [q])
    k0 = z3.Const("above", Str)

    def ret(s, r):
        n = mp(c, c.X.read(s, q))
        lv, cu = entry(c, n, "level", INT), entry(c, n, "currentTime", STR)
        k = z3.Const("k", Str)
        above = z3.And(D.has(k0), D.get(k0, "previousTime") == nx)
        return [("below an old level it is one level further down and has the same current field", z3.Implies(above, z3.And(lv[1] == D.get(k0, "level", INT) + 1, cu[1] == D.get(k0, "currentTime")))),
                ("below a current field it is the first level of that field", z3.Implies(each(lambda k: z3.Implies(D.has(k), D.get(k, "previousTime") != nx)), z3.And(lv[1] == 1, cu[1] == nx))),
                ("the entries keep their types", z3.And(lv[0], cu[0])),
                ("no other entry changes", z3.ForAll([k], z3.And(n.dom[k] == d.dom[k], z3.Implies(z3.And(k != c.S.lit("level"), k != c.S.lit("currentTime")), n.val[k] == d.val[k])))),
                ("the collection is unchanged", c.same(c.X.read(s, p), v))]
    c.expect("OldTimeCollection::setCurrentFieldAndLevel", outs, ret, cover=("v",))


# ------------------------------------------------------------------ insertion and look-up
def docdata(c, s, p):
    return mp(c, c.X.read(s, p))


def insert(coll, doc):
    """a document is stored under its own identifier, never over another one"""
    def f(c):
        st, p, v = c.obj(c.state(), coll, "collection")
        D = Docs(c, v, doc)
        st, q, dv = c.obj(st, doc, "document")
        ok, key = entry(c, mp(c, dv), "id", STR)
        st = st.assume(ok)
        t = c.T(doc)
        outs = c.call(st, c.fn(coll + "::insert"), p, [q])

        def ret(s, r):
            n = Docs(c, c.X.read(s, p), doc)
            k = z3.Const("k", Str)
            r = c.X.load(s, r)
            said = r == z3.If(D.has(key), c.S.lit(""), key) if coll == FC else r == z3.Not(D.has(key))
            return [("it is stored under its identifier", n.has(key)), ("an existing document is kept", z3.Implies(D.has(key), n.m.val[key] == D.m.val[key])),
                    ("a new one is stored as given", z3.Implies(z3.Not(D.has(key)), n.m.val[key] == c.S.pack(dv, t))),
                    ("no other document changes", z3.ForAll([k], z3.Implies(k != key, z3.And(n.has(k) == D.has(k), z3.Implies(D.has(k), n.m.val[k] == D.m.val[k]))))),
                    ("reports whether it was stored", said), ("the document is unchanged", c.same(c.X.read(s, q), dv))]
        c.expect("%s::insert" % coll.split("::")[-1], outs, ret, cover=("v",))
    return f


def lookup(coll, doc, fn):
    def f(c):
        for cst in (False, True):
            st, p, v = c.obj(c.state(), coll, "collection")
            D = Docs(c, v, doc)
            st, pk, key = string(c, st, "id")
            same = lambda s: ("changes nothing", c.same(c.X.read(s, p), v))

            def ret(s, r):
                g = [("only for stored documents", D.has(key)), same(s), ("is the stored document", c.S.pack(c.X.load(s, r), c.T(doc)) == D.m.val[key])]
                if isref(r):
                    w = c.S.fresh(c.T(doc), "w")
                    n = Docs(c, c.X.read(c.X.write(s, r, w), p), doc)
                    k = z3.Const("k", Str)
                    g.append(("writing through it changes exactly that document", z3.And(n.m.val[key] == c.S.pack(w, c.T(doc)), z3.ForAll([k], z3.And(n.has(k) == D.has(k), z3.Implies(z3.And(D.has(k), k != key), n.m.val[k] == D.m.val[k]))))))
                else:
                    g.append(("is a reference", z3.BoolVal(False)))
                return g
            c.expect("%s::%s%s" % (coll.split("::")[-1], fn, " const" if cst else ""), c.call(st, c.fn(coll + "::" + fn, const=cst), p, [pk]), ret,
                     lambda s, e, x: [("raises out_of_range only for unknown identifiers", z3.And(z3.BoolVal(e == OOR), z3.Not(D.has(key)))), same(s)], cover=("v", "thr"))
        c.expect("%s::contains" % coll.split("::")[-1], c.call(st, c.fn(coll + "::contains"), p, [pk]), lambda s, r: [("exactly the stored documents", r == D.has(key)), same(s)], cover=("v",))
    return f


# ------------------------------------------------------------------ fields and their levels
def fieldof(c, D, k):
    """the field of a field document (FieldT), as a struct"""
    return entry(c, D.at(k), "field", FT)[1]


def wf_fields(c, D):
    """every field document is complete, holds a field and the field carries the document's key"""
    a = lambda k: z3.And(D.typed(k, "name", STR), *[D.typed(k, n, "long") for n in INDICES], D.typed(k, "field", FT), fieldof(c, D, k).f["key"] == k)
    return [each(lambda k: z3.Implies(D.has(k), a(k)))]


def linked(c, O, F):
    """the fields the documents of the old-time collection name exist"""
    return [each(lambda k: z3.Implies(O.has(k), z3.And(F.has(O.get(k, "nextTime")), F.has(O.get(k, "previousTime")), O.get(k, "nextTime") != O.get(k, "previousTime"))))]


class Levels:
    """an arbitrary pair of collections that satisfies the invariant"""

    def __init__(self, c):
        self.c = c
        st = c.state()
        st, self.fc, self.fv = c.obj(st, FC, "fields")
        self.F = Docs(c, self.fv, FD)
        for x in wf_fields(c, self.F):
            st = st.assume(x)
        st, self.oc, self.ov, self.O = old_collection(c, st)
        for x in linked(c, self.O, self.F):
            st = st.assume(x)
        e = c.S.lit("")
        st = st.assume(z3.And(z3.Not(self.O.has(e)), z3.Not(self.F.has(e))))
        self.st = st
        found_contract(c, self.O, "findNextTime", "nextTime")
        found_contract(c, self.O, "findPreviousTime", "previousTime")
        self.asked = []

        def instance(X, d, s, this, args):
            self.asked.append((X.load(s, args[1]) if len(args) == 2 else None, args[0]))
            return [Out(s, "v", self.fc)]
        c.X.contracts[FC + "::instance"] = instance
        # a generated identifier differs from every other one (C03)
        self.newid = c.S.fresh(c.T(STR), "generated")

        def gen(X, d, s, this, args):
            return [Out(s.assume(z3.And(z3.Not(self.O.has(self.newid)), z3.Not(self.F.has(self.newid)), self.newid != e)), "v", self.newid)]
        c.X.contracts["NeoFOAM::Document::generateID"] = gen

    def whose(self):
        """the fields are looked for in the database and the collection the old-time collection was made for"""
        c = self.c
        own = c.X.load(self.st, [o for o in c.call(self.st, c.fn("NeoFOAM::CollectionMixin::name", which=lambda f: self.mine(f)), self.oc, [])][0].v)
        names = [v for v in self.ov.f.values() if z3.is_expr(v) and v.sort().eq(Str) and not v.eq(own)]
        db = [o for o in c.call(self.st, c.fn("NeoFOAM::CollectionMixin::db", const=True, which=lambda f: self.mine(f)), self.oc, [])][0].v
        if len(names) != 1 or not isinstance(db, Path):
            raise Unsupported("representation of OldTimeCollection")
        ok = z3.And(*[z3.And(z3.BoolVal(isinstance(d, Path) and d.same(db)), n == names[0]) if n is not None else z3.BoolVal(False) for n, d in self.asked])
        return [("in the collection of fields it was made for", z3.And(z3.BoolVal(len(self.asked) > 0), ok))]

    def mine(self, f):
        k = f.get("_class")
        return k is not None and k["id"] == self.c.u.find_class(self.c.T("NeoFOAM::CollectionMixin<%s>" % OTD))["id"]

    def now(self, s):
        c = self.c
        return Docs(c, c.X.read(s, self.fc), FD), Docs(c, c.X.read(s, self.oc), OTD)

    def same(self, s):
        c = self.c
        return [("no field changes", c.same(c.X.read(s, self.fc), self.fv)), ("the bookkeeping is unchanged", c.same(c.X.read(s, self.oc), self.ov))]


def get_or_insert(c):
    L = Levels(c)
    F, O = L.F, L.O
    idn = c.S.fresh(c.T(STR), "field_id")
    st = L.st.assume(F.has(idn))
    K = c.S.fresh(c.T(STR), "new_key")
    reg = []
    ft = c.T(FT).strip()

    def register(X, d, s, this, args):
        """registerField (below): the created document is stored under a new key; its field carries key and collection name"""
        fn = X.load(s, args[0])
        if not (isinstance(fn, St) and "CreateFromExistingField" in str(fn.cls)):
            raise Unsupported("another way of creating the old field")
        reg.append((s, this, fn))
        s = s.assume(z3.And(z3.Not(F.has(K)), K != c.S.lit(""), z3.Not(O.has(K)), K != L.newid))
        src = X.load(s, fn.f["field"])
        new = c.S.unpack(z3.Const("new_document", c.S.sort(c.T(FD))), c.T(FD).strip())
        m = mp(c, new)
        nf = c.S.fresh(ft, "new_field")
        cn = c.S.fresh(c.T(STR), "collection_name")
        for n, x in (("name", fn.f["name"]), ("key", K), ("values", src.f["values"])):
            s = s.assume(nf.f[n] == x)
        lit = c.S.lit
        ds = [entry(c, m, "name", STR)[0], entry(c, m, "name", STR)[1] == fn.f["name"], m.dom[lit("field")], m.val[lit("field")] == c.S.to_any(nf, ft)]
        for n in INDICES:
            ds += [entry(c, m, n, "long")[0], entry(c, m, n, "long")[1] == fn.f[n]]
        s = s.assume(z3.And(*ds))
        steps, mv = c.mapf(X.read(s, L.fc))
        m2 = MapV(mv.kty, mv.vty, z3.Store(mv.dom, K, True), z3.Store(mv.val, K, c.S.pack(new, c.T(FD))), mv.kind)
        s = X.write(s, Path(L.fc.root, L.fc.steps + tuple(steps)), m2)
        # the reference to the stored field, as the library's own accessors give it
        res = []
        for o in X.call(s, c.fn(FC + "::fieldDoc", const=False), L.fc, [K]):
            if o.k != "v":
                c.prove("registerField: the new document can be looked up", o.st, z3.BoolVal(False))
                continue
            for q in X.call(o.st, c.fn(FD + "::field", const=False, targs=[FT]), o.v, []):
                if q.k != "v":
                    c.prove("registerField: the new document holds the field", q.st, z3.BoolVal(False))
                    continue
                res.append(q)
        return res
    c.X.contracts[FC + "::registerField"] = register
    outs = c.call(st, c.fn(OT + "::getOrInsert"), L.oc, [idn])
    k0 = z3.Const("existing", Str)
    k1 = z3.Const("above", Str)
    has = z3.And(O.has(k0), O.get(k0, "nextTime") == idn)
    none = each(lambda k: z3.Implies(O.has(k), O.get(k, "nextTime") != idn))
    above = z3.And(O.has(k1), O.get(k1, "previousTime") == idn)
    top = each(lambda k: z3.Implies(O.has(k), O.get(k, "previousTime") != idn))

    def ret(s, r):
        nF, nO = L.now(s)
        k = z3.Const("k", Str)
        f = c.X.load(s, r)
        new = nO.at(L.newid)
        nget = lambda n, ty=STR: entry(c, new, n, ty)[1]
        g = [("it is a reference to a registered field", z3.BoolVal(isref(r)))]
        g.append(("an existing level is returned again", z3.Implies(has, z3.And(f.f["key"] == O.get(k0, "previousTime"), c.S.pack(f, ft) == c.S.pack(fieldof(c, nF, O.get(k0, "previousTime")), ft)))))
        g.append(("and nothing is added or changed", z3.Implies(has, z3.And(c.same(c.X.read(s, L.fc), L.fv), c.same(c.X.read(s, L.oc), L.ov)))))
        src = fieldof(c, F, idn)
        g.append(("a new level is a new field with the field's present values", z3.Implies(none, z3.And(f.f["key"] == K, z3.Not(F.has(K)), nF.has(K), f.f["values"] == src.f["values"], c.S.pack(f, ft) == c.S.pack(fieldof(c, nF, K), ft)))))
        g.append(("one time index earlier", z3.Implies(none, z3.And(nF.get(K, "timeIndex", "long") == F.get(idn, "timeIndex", "long") - 1, *[nF.get(K, n, "long") == F.get(idn, n, "long") for n in INDICES[1:]]))))
        g.append(("named after the field", z3.Implies(none, f.f["name"] == c.S.concat(src.f["name"], c.S.lit("_0")))))
        g.append(("every other field is as it was", z3.ForAll([k], z3.And(z3.Implies(k != K, nF.has(k) == F.has(k)), z3.Implies(F.has(k), nF.m.val[k] == F.m.val[k])))))
        g.append(("the bookkeeping names the field and its new old level", z3.Implies(none, z3.And(nO.has(L.newid), nget("nextTime") == idn, nget("previousTime") == K))))
        g.append(("the level below an old level is one further down and has its current field", z3.Implies(z3.And(none, above), z3.And(nget("level", INT) == O.get(k1, "level", INT) + 1, nget("currentTime") == O.get(k1, "currentTime")))))
        g.append(("the level below a field that is no old level is its first", z3.Implies(z3.And(none, top), z3.And(nget("level", INT) == 1, nget("currentTime") == idn))))
        g.append(("every other bookkeeping document is as it was", z3.ForAll([k], z3.And(z3.Implies(k != L.newid, nO.has(k) == O.has(k)), z3.Implies(O.has(k), nO.m.val[k] == O.m.val[k])))))
        for i, x in enumerate(wf_old(c, nO) + wf_fields(c, nF) + linked(c, nO, nF)):
            g.append(("the invariant is kept (%s)" % ("complete documents", "one old level per field", "one field per old level", "complete fields with their keys", "named fields exist")[i], x))
        return g + L.whose()
    c.expect("OldTimeCollection::getOrInsert", outs, ret, cover=("v",))
    for s, this, fn in reg:
        c.prove("OldTimeCollection::getOrInsert: registered in the collection of the fields", s, z3.BoolVal(isinstance(this, Path) and this.same(L.fc)))
        c.prove("OldTimeCollection::getOrInsert: created from the field itself", s, z3.And(z3.BoolVal(isref(fn.f["field"])), c.X.load(s, fn.f["field"]).f["key"] == idn))


def get_const(c):
    L = Levels(c)
    F, O = L.F, L.O
    idn = c.S.fresh(c.T(STR), "field_id")
    outs = c.call(L.st, c.fn(OT + "::get"), L.oc, [idn])
    k0 = z3.Const("existing", Str)
    has = z3.And(O.has(k0), O.get(k0, "nextTime") == idn)
    none = each(lambda k: z3.Implies(O.has(k), O.get(k, "nextTime") != idn))
    ft = c.T(FT).strip()

    def ret(s, r):
        f = c.X.load(s, r)
        return [("it is a reference to a registered field", z3.BoolVal(isref(r))), ("the field's old level", z3.Implies(has, c.S.pack(f, ft) == c.S.pack(fieldof(c, F, O.get(k0, "previousTime")), ft))),
                ("only if there is one", z3.Not(none))] + L.same(s) + L.whose()
    c.expect("OldTimeCollection::get", outs, ret, exit=lambda s: [("only without an old level", none)], cover=("v", "exit"))


# ------------------------------------------------------------------ registering a field
def register(c):
    """registerField: the created document is stored under its identifier; its field carries the identifier and the collection's name"""
    st, p, v = c.obj(c.state(), FC, "fields")
    F = Docs(c, v, FD)
    st, fdv = st, c.S.fresh(c.T(FD), "created")
    d = mp(c, fdv)
    ft = c.T(FT).strip()
    for n, ty in (("id", STR), ("name", STR), ("field", FT)) + tuple((n, "long") for n in INDICES):
        st = st.assume(entry(c, d, n, ty)[0])
    key = entry(c, d, "id", STR)[1]
    fld = entry(c, d, "field", FT)[1]
    st = st.assume(z3.And(z3.Not(F.has(key)), key != c.S.lit("")))
    made = []

    def create(X, f, s, this, args):
        made.append(args[0])
        return [Out(s, "v", fdv)]
    c.X.contracts["std::function"] = create
    fn = c.S.fresh(c.T("std::function<%s(NeoFOAM::Database &)>" % FD), "create")
    outs = c.call(st, c.fn(FC + "::registerField", targs=[FT]), p, [fn])
    own = [o for o in c.call(st, meth_of(c, FC, FD, "name"), p, [])][0]
    nm = c.X.load(own.st, own.v)
    db = [o for o in c.call(st, meth_of(c, FC, FD, "db"), p, [])][0].v

    def ret(s, r):
        n = Docs(c, c.X.read(s, p), FD)
        k = z3.Const("k", Str)
        m = n.at(key)
        f = entry(c, m, "field", FT)[1]
        lit = c.S.lit
        g = [("stored under its identifier", n.has(key)), ("the field's key is the identifier of its document", f.f["key"] == key), ("the field knows its collection", f.f["fieldCollectionName"] == nm),
             ("the field is otherwise as created", z3.And(*[z3.BoolVal(f.f[x].same(fld.f[x])) if isinstance(f.f[x], Path) else f.f[x] == fld.f[x] for x in fld.f if x not in ("key", "fieldCollectionName") and (isinstance(f.f[x], Path) or z3.is_expr(f.f[x]))])),
             ("every other entry of the document is as created", z3.ForAll([k], z3.And(m.dom[k] == d.dom[k], z3.Implies(k != lit("field"), z3.Implies(d.dom[k], m.val[k] == d.val[k]))))),
             ("no other document changes", z3.ForAll([k], z3.Implies(k != key, z3.And(n.has(k) == F.has(k), z3.Implies(F.has(k), n.m.val[k] == F.m.val[k]))))),
             ("created once, in the collection's database", z3.BoolVal(len(made) == 1 and isinstance(db, Path) and made[0].same(db)))]
        if isref(r):
            w = c.S.fresh(ft, "w")
            n2 = Docs(c, c.X.read(c.X.write(s, r, w), p), FD)
            g.append(("returns the stored field", z3.And(c.S.pack(c.X.load(s, r), ft) == c.S.pack(f, ft), n2.at(key).val[lit("field")] == c.S.to_any(w, ft))))
        else:
            g.append(("returns a reference", z3.BoolVal(False)))
        return g
    c.expect("FieldCollection::registerField", outs, ret, cover=("v",))


def meth_of(c, coll, doc, name):
    cls = c.u.find_class(c.T("NeoFOAM::CollectionMixin<%s>" % doc))
    fs = [f for f in c.u.find_functions("NeoFOAM::CollectionMixin::" + name) if f.get("_class") is not None and f["_class"]["id"] == cls["id"]]
    if not fs:
        raise Unsupported("no %s" % name)
    return sorted(fs, key=lambda f: not c.u.is_const(f))[0]


def field_document(c):
    """making a field document keeps every entry (and needs them all)"""
    st, pd, dv = c.obj(c.state(), "NeoFOAM::Document", "document")
    d = mp(c, dv)
    full = z3.And(*[d.dom[c.S.lit(n)] for n in ("name", "id", "field") + INDICES])
    k = z3.Const("k", Str)
    st = st.assume(d.dom[c.S.lit("id")])
    outs = c.new(st, FD, ["const NeoFOAM::Document &"], [pd])

    def ret(s, r):
        n = mp(c, r)
        return [("only for complete documents", full), ("every entry is kept", z3.ForAll([k], z3.And(n.dom[k] == d.dom[k], z3.Implies(d.dom[k], n.val[k] == d.val[k]))))]
    c.expect("FieldDocument(document)", outs, ret, lambda s, e, x: [("raises runtime_error only for incomplete documents", z3.And(z3.BoolVal(e == RUN), z3.Not(full)))], cover=("v", "thr"))


# ------------------------------------------------------------------ which collection
COL = "NeoFOAM::Collection"
DB = "NeoFOAM::Database"


def named(c, coll, nargs, first="Database", cst=False):
    return c.fn(coll + "::instance", which=lambda x: len(c.u.params(x)) == nargs and first in c.u.params(x)[0]["type"]["qualType"] and c.u.params(x)[0]["type"]["qualType"].startswith("const") == cst)


def instance(coll, nargs):
    """instance(database, name[, field collection]): the collection of that name, made empty on the first request and the same one afterwards"""
    def f(c):
        for first in (True, False):
            st, d, v = c.obj(c.state(), DB, "db")
            st, pk, key = string(c, st, "name")
            steps, m = c.mapf(v)
            fcn = c.S.fresh(c.T(STR), "field_collection")
            args = [d, key] + ([fcn] if nargs == 3 else [])
            if first:
                st = st.assume(z3.Not(m.dom[key]))
                have = None
            else:
                st, pt, have = c.obj(st, coll, "existing")
                from .C05 import new_collection
                o = [x for x in new_collection(c, st, coll, have)]
                if len(o) != 1 or o[0].k != "v":
                    raise Unsupported("wrapping a collection")
                st = o[0].st
                m = MapV(m.kty, m.vty, z3.Store(m.dom, key, True), z3.Store(m.val, key, c.S.pack(o[0].v, c.T(COL))), m.kind)
                st = c.X.write(st, Path(d.root, d.steps + tuple(steps)), m)
            inst = named(c, coll, nargs)
            outs = c.X.call(st, inst, None, args)

            def ret(s, r, have=have, m=m, d=d, key=key, fcn=fcn):
                n = mp(c, c.X.read(s, d))
                k = z3.Const("k", Str)
                v = c.X.load(s, r)
                g = [("is a reference", z3.BoolVal(isref(r))), ("stored under the name", n.dom[key]), ("no other collection changes", z3.ForAll([k], z3.Implies(k != key, z3.And(n.dom[k] == m.dom[k], z3.Implies(m.dom[k], n.val[k] == m.val[k])))))]
                if have is not None:
                    return g + [("the same collection as before", c.S.pack(v, c.T(coll)) == c.S.pack(have, c.T(coll))), ("unchanged", n.val[key] == m.val[key])]
                D = mp(c, v)
                strs = [x for x in v.f.values()]
                s2, q = c.put(s, v, "made")
                doc = OTD if coll == OT else FD
                own = c.X.call(s2, meth_of(c, coll, doc, "name"), q, [])[0]
                dbr = c.X.call(s2, meth_of(c, coll, doc, "db"), q, [])[0].v
                g += [("starts without documents", z3.ForAll([k], z3.Not(D.dom[k]))), ("of that name", c.X.load(own.st, own.v) == key), ("in that database", z3.BoolVal(isinstance(dbr, Path) and dbr.same(d)))]
                if nargs == 3:
                    g.append(("for that collection of fields", z3.Or(*[x == fcn for x in v.f.values() if z3.is_expr(x) and x.sort().eq(Str)])))
                w = c.S.fresh(c.T(coll), "w")
                # later requests see what is written through the reference
                s3 = c.X.write(s, r, w)
                for o in c.X.call(s3, inst, None, args):
                    g.append(("a later request gives the same collection", z3.Implies(z3.And(*o.st.pc), z3.And(z3.BoolVal(o.k == "v"), c.S.pack(c.X.load(o.st, o.v), c.T(coll)) == c.S.pack(w, c.T(coll))) if o.k == "v" else z3.BoolVal(False))))
                return g
            c.expect("%s::instance(database, name), %s" % (coll.split("::")[-1], "first request" if first else "again"), outs, ret, cover=("v",))
    return f


def beside(cst):
    """OldTimeCollection::instance(field collection): one collection of old levels per collection of fields, in the same database"""
    def f(c):
        st, p, v = c.obj(c.state(), FC, "fields")
        nm = [o for o in c.call(st, meth_of(c, FC, FD, "name"), p, [])][0]
        nm = c.X.load(nm.st, nm.v)
        db = [o for o in c.call(st, meth_of(c, FC, FD, "db"), p, [])][0].v
        st, oc, ov = c.obj(st, OT, "olds")
        want = named(c, OT, 2 if cst else 3, "Database", cst)
        asked = []

        def h(X, d, s, this, args):
            if d is not want and d.get("id") != want.get("id"):
                return None
            asked.append((s, args[0], [X.load(s, a) for a in args[1:]]))
            return [Out(s, "v", oc)]
        c.X.contracts[OT + "::instance"] = h
        outs = c.X.call(st, named(c, OT, 1, "FieldCollection", cst), None, [p])

        def ret(s, r):
            ok = len(asked) == 1
            a = asked[0]
            g = [("is that collection", z3.BoolVal(ok and isref(r) and r.same(oc))), ("in the database of the fields", z3.BoolVal(ok and isinstance(a[1], Path) and isinstance(db, Path) and a[1].same(db))),
                 ("its name is made from the name of the collection of fields", a[2][0] == c.S.concat(nm, c.S.lit("_oldTime")))]
            if not cst:
                g.append(("for that collection of fields", a[2][1] == nm))
            return g
        c.expect("OldTimeCollection::instance(%sfield collection)" % ("const " if cst else ""), outs, ret, cover=("v",))
    return f


def fields_of(cst):
    """FieldCollection::instance(field): the collection the field was registered in; not for unregistered fields"""
    def f(c):
        st, p, v = c.obj(c.state(), FT, "field")
        reg = [o for o in c.call(st, c.fn(FT + "::registered"), p, [])][0].v
        db = [o for o in c.call(st, c.fn(FT + "::db", const=True), p, [])][0].v
        name = v.f["fieldCollectionName"]
        st, d, dv = c.obj(st, DB, "db")
        fs = [x for x in c.u.find_functions(FC + "::instance") if c.u.targs(x) and c.u.params(x)[0]["type"]["qualType"].startswith("const") == cst and "FieldT" in c.u.params(x)[0]["type"]["qualType"]]
        if len(fs) != 1:
            raise Unsupported("%d functions instance(field)" % len(fs))
        st, fc, fv = c.obj(st, FC, "fields")
        asked = []

        def h(X, g, s, this, args):
            if len(X.u.params(g)) != 2:
                return None
            asked.append((args[0], X.load(s, args[1])))
            return [Out(s, "v", fc)]
        c.X.contracts[FC + "::instance"] = h

        def at(X, g, s, this, args):
            asked.append((this, X.load(s, args[0])))
            s, q = c.put(s, c.S.fresh(c.T(COL)), "handle")
            return [Out(s, "v", q)]
        c.X.contracts[DB + "::at"] = at
        c.X.contracts[COL + "::as"] = lambda X, g, s, this, args: [Out(s, "v", fc)]
        outs = c.X.call(st, fs[0], None, [p])

        def ret(s, r):
            ok = len(asked) == 1
            return [("only for registered fields", reg), ("the collection the field names, in the field's database", z3.And(z3.BoolVal(ok and isref(r) and r.same(fc) and isinstance(asked[0][0], Path) and isinstance(db, Path) and asked[0][0].same(db)), asked[0][1] == name if ok else z3.BoolVal(False))),
                    ("the field is unchanged", c.same(c.X.read(s, p), v))]
        c.expect("FieldCollection::instance(%sfield)" % ("const " if cst else ""), outs, ret, lambda s, e, x: [("raises runtime_error only for unregistered fields", z3.And(z3.BoolVal(e == RUN), z3.Not(reg)))], cover=("v", "thr"))
    return f


def old_time(cst):
    """oldTime(field): the old level of the field with its own key, in its own collections"""
    def f(c):
        st, p, v = c.obj(c.state(), FT, "field")
        st, fc, _ = c.obj(st, FC, "fields")
        st, oc, _ = c.obj(st, OT, "olds")
        st, res, _ = c.obj(st, FT, "old")
        log = []
        c.X.contracts[FC + "::instance"] = lambda X, g, s, this, args: log.append(("fields", args)) or [Out(s, "v", fc)]
        c.X.contracts[OT + "::instance"] = lambda X, g, s, this, args: log.append(("olds", args)) or [Out(s, "v", oc)]
        ask = lambda X, g, s, this, args: log.append(("level", [this, X.load(s, args[0])])) or [Out(s, "v", res)]
        c.X.contracts[OT + "::get"] = ask
        if not cst:
            c.X.contracts[OT + "::getOrInsert"] = ask
        fs = [x for x in c.u.find_functions(CC + "oldTime") if c.u.params(x)[0]["type"]["qualType"].startswith("const") == cst and "FieldT" in c.u.params(x)[0]["type"]["qualType"] and not c.u.is_dependent(x)]
        if len(fs) != 1:
            raise Unsupported("%d functions oldTime" % len(fs))
        outs = c.X.call(st, fs[0], None, [p])

        def ret(s, r):
            ok = [x[0] for x in log] == ["fields", "olds", "level"] and log[0][1][0].same(p) and log[1][1][0].same(fc) and log[2][1][0].same(oc) and isref(r) and r.same(res)
            return [("asks the field's own collections once", z3.BoolVal(ok)), ("for the level below the field itself", log[2][1][1] == v.f["key"] if ok else z3.BoolVal(False)), ("the field is unchanged", c.same(c.X.read(s, p), v))]
        c.expect("oldTime(%sfield)" % ("const " if cst else ""), outs, ret, cover=("v",))
    return f


# ------------------------------------------------------------------ the copy that becomes the old level
def copied(ety, k):
    """CreateFromExistingField: a field document holding a field with the same values, in storage of its own"""
    vf = CC + "VolumeField<%s>" % ety
    cls = CC + "CreateFromExistingField<%s>" % vf

    def f(c):
        from .mesh import World, MeshV, GeoV, EXECS
        from .fields import data, root_of, eqel
        w = World(c, k)
        M = MeshV(w, c.state())
        phi = GeoV(w, M.st, "VolumeField", ety, "phi", M)
        st = phi.st
        st, db, dbv = c.obj(st, DB, "db")
        nm = c.S.fresh(c.T(STR), "old_name")
        idx = {n: z3.Int(n) for n in INDICES}
        src = c.X.read(st, phi.path)
        V = {"name": nm, "field": phi.path, **idx}
        names = [n for n, t in c.S.fields(c.T(cls))]
        if sorted(names) != sorted(V):
            raise Unsupported("representation of CreateFromExistingField")
        st, this = c.put(st, St(c.T(cls), V), "create")
        reg = [z3.And(*o.st.pc[len(st.pc):], o.v) for o in c.call(st, c.fn(CC + "VolumeField::registered", which=lambda x: x.get("_class") is not None and x["_class"]["id"] == c.u.find_class(c.T(vf))["id"]), phi.path, [])]
        reg = z3.Or(*reg)
        st, fc, fv = c.obj(st, FC, "fields")
        F = Docs(c, fv, FD)
        for x in wf_any(c, F):
            st = st.assume(x)
        key = c.X.load(st, Path(phi.path.root, phi.path.steps + (("f", "key"),)))
        st = st.assume(F.has(key))
        c.X.contracts[FC + "::instance"] = lambda X, g, s, this, args: [Out(s, "v", fc)]
        made = []

        def document(X, d, s, at, args):
            ps = X.u.params(d)
            if len(ps) != 2 or "Dictionary" not in ps[0]["type"]["qualType"]:
                return None
            made.append((s, mp(c, X.load(s, args[0]))))
            return None
        c.X.contracts["NeoFOAM::Document::Document"] = document
        cl = c.u.find_class(c.T(cls))
        ms = [m for m in c.u.methods(cl) if m.get("name") == "operator()"]
        outs = c.X.call(st, c.u.definition(ms[0]) or ms[0], this, [db])

        def ret(s, r):
            e = c.T(ety)
            d = mp(c, c.X.load(s, r))
            t = z3.Int(fresh_name("t"))
            g = [("it is complete", z3.And(*[d.dom[c.S.lit(n)] for n in ("name", "id", "field") + INDICES]))]
            at = lambda n, ty: c.S.from_any(stored(c, d.val, c.S.lit(n)), c.T(ty).strip())
            f = at("field", vf)
            s, q = c.put(s, f, "copy")
            n = lambda n: c.X.load(s, Path(q.root, q.steps + (("f", n),)))
            same = lambda a, b: z3.And(*[val(s, x, y) for x, y in zip(a, b)])
            def val(s, new, old):
                n, arr, sz, ex = data(c, s, new)
                if arr is None:
                    return z3.And(sz == 0, old.n == 0, ex.idx == old.ex.idx)
                return z3.And(sz == old.n, n == old.n, ex.idx == old.ex.idx, z3.Implies(z3.And(0 <= t, t < old.n), eqel(c, old.ty.args[0], arr[t], old.arr[t])))
            fields = lambda st, p: parts(c, w, st, p, vf, ety)
            new, old = fields(s, q), phi.all() + [phi.types, phi.off]
            g += [("the %s are copied" % what, val(s, x, y)) for what, x, y in zip(("cell values", "boundary values", "reference values", "value fractions", "reference gradients", "patch types", "patch offsets"), new, old)]
            g.append(("into storage of its own", z3.BoolVal(all(root_of(c, s, x) != y.root for x, y in zip(new, old)))))
            g.append(("with the given name", z3.And(f.f["name"] == nm, at("name", STR) == nm)))
            g.append(("not yet registered itself", z3.And(f.f["key"] == c.S.lit(""), f.f["fieldCollectionName"] == c.S.lit(""))))
            big = z3.IntVal(2 ** 63 - 1)
            given = {n: z3.If(z3.And(reg, idx[n] == big), F.get(key, n, "long"), idx[n]) for n in INDICES}
            g += [("the %s as given, or the field's own" % n, at(n, "long") == given[n]) for n in INDICES]
            g.append(("the field is unchanged", phi.same(s)))
            g.append(("its boundary conditions are those of the field", c.same(*[[x for x in v.f.values() if isinstance(x, SeqV)][0] for v in (f, src)])))
            g.append(("in the given database", z3.And(*[z3.And(x.has, z3.BoolVal(isinstance(x.v, Path) and x.v.same(db))) for x in f.f.values() if isinstance(x, OptV)])))
            return g + [M.same(s)]
        c.expect("%s %s" % (cls, EXECS[k]), outs, ret, cover=("v",))
    return f


def stored(c, arr, k):
    """the value under this text key: entries under other texts are passed over, decided conditions taken"""
    return settled(c, z3.Select(simp(arr), k))


def settled(c, t):
    """a term without the selections and conditions that distinct texts decide"""
    t = simp(t)
    while True:
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*c.S.lit_facts())
            if s.check(t.arg(0)) == z3.unsat:
                t = simp(t.arg(2))
            elif s.check(z3.Not(t.arg(0))) == z3.unsat:
                t = simp(t.arg(1))
            else:
                return t
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            a, k = settled(c, t.arg(0)), t.arg(1)
            if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE):
                return z3.Select(a, k)
            i = a.arg(1)
            if i.eq(k):
                t = simp(a.arg(2))
            elif str(i).strip("|").startswith("lit:") and str(k).strip("|").startswith("lit:"):
                t = z3.Select(a.arg(0), k)
            else:
                return z3.Select(a, k)
        else:
            return t


def parts(c, w, st, p, vf, ety):
    """paths of the fields inside a geometric field"""
    i = w.get(st, p, vf, "internalField", True)
    bf = w.get(st, p, vf, "boundaryField", True)
    return [i] + [w.get(st, bf, "NeoFOAM::BoundaryFields<%s>" % ety, n, True) for n in ("value", "refValue", "valueFraction", "refGrad", "boundaryTypes", "offset")]


def wf_any(c, D):
    return [each(lambda k: z3.Implies(D.has(k), z3.And(*[D.typed(k, n, "long") for n in INDICES])))]


CONTRACTS = [("OldTimeDocument constructor", document), ("OldTimeDocument accessors", accessors(OTD, [(n, STR) for n in TEXTS] + [("level", INT)])),
             ("FieldDocument accessors", accessors(FD, [("name", STR)] + [(n, "long") for n in INDICES])),
             ("OldTimeCollection::findNextTime", look("findNextTime", "nextTime")), ("OldTimeCollection::findPreviousTime", look("findPreviousTime", "previousTime")),
             ("OldTimeCollection::setCurrentFieldAndLevel", current),
             ("OldTimeCollection::insert", insert(OT, OTD)), ("FieldCollection::insert", insert(FC, FD)),
             ("OldTimeCollection look-up", lookup(OT, OTD, "oldTimeDoc")), ("FieldCollection look-up", lookup(FC, FD, "fieldDoc")),
             ("OldTimeCollection::getOrInsert", get_or_insert), ("OldTimeCollection::get", get_const),
             ("FieldCollection::registerField", register), ("FieldDocument(document)", field_document), ("FieldCollection::instance", instance(FC, 2)), ("OldTimeCollection::instance", instance(OT, 3))]
CONTRACTS += [("OldTimeCollection::instance(field collection)", beside(False)), ("OldTimeCollection::instance(const field collection)", beside(True)), ("FieldCollection::instance(field)", fields_of(False)),
              ("FieldCollection::instance(const field)", fields_of(True)), ("oldTime(field)", old_time(False)), ("oldTime(const field)", old_time(True)),
              ] + [("CreateFromExistingField<VolumeField<%s>> %s" % (e, x), copied(e, k)) for e in ("double", "NeoFOAM::Vector") for k, x in enumerate(("SerialExecutor", "CPUExecutor", "GPUExecutor"))]
