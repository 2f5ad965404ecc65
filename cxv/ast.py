"""Front end: mechanical extraction of the real code.

A unit (a list of /repo headers/sources plus a driver that only instantiates templates and declares
opaque argument types) is handed to clang, whose resolved AST (templates instantiated, overloads,
implicit conversions and default arguments made explicit) is dumped as JSON for every declaration in
namespace NeoFOAM.  Nothing is rewritten by hand: the executor in exec.py walks this tree.
What the extraction drops: comments, attributes, noexcept specifications, destructors' effects,
and everything the preprocessor removed under the build's definitions.
"""
import json, os, re, subprocess, hashlib, tempfile

REPO = os.environ.get("CXV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18"
BASE_FLAGS = ["-std=c++20", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-DNEOFOAM_DP_SCALAR=1", "-DNDEBUG",
              "-I" + VERIF + "/shim", "-I" + REPO + "/include"]


class FrontendError(Exception):
    pass


class Unsupported(Exception):
    """construct outside the verifier's reach: the function is undecided, never 'violated'"""
    pass


# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "name", "args", "_s")

    def __init__(self, k, name=None, args=()):
        self.k, self.name, self.args = k, name, tuple(args)
        self._s = None

    def __str__(self):
        if self._s is None:
            if self.k in ("ref", "ptr"):
                s = str(self.args[0]) + ("&" if self.k == "ref" else "*")
            elif self.k == "fn":
                s = str(self.args[0]) + "(" + ",".join(map(str, self.args[1:])) + ")"
            elif self.k == "arr":
                s = f"{self.args[0]}[{self.name}]"
            else:
                s = self.name + ("<" + ",".join(map(str, self.args)) + ">" if self.args else "")
            self._s = s
        return self._s

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Ty) and str(self) == str(o)

    def __hash__(self):
        return hash(str(self))

    def strip(self):
        t = self
        while t.k == "ref":
            t = t.args[0]
        return t


INTS = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "short": (16, 1),
        "unsigned short": (16, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "long long": (64, 1),
        "unsigned long long": (64, 0), "__int128": (128, 1), "wchar_t": (32, 1)}
REALS = {"double", "float", "long double"}
TYPEDEFS = {"size_t": "unsigned long", "std::size_t": "unsigned long", "std::ptrdiff_t": "long", "ptrdiff_t": "long",
            "int32_t": "int", "int64_t": "long", "uint8_t": "unsigned char", "uint32_t": "unsigned int", "uint64_t": "unsigned long", "uint16_t": "unsigned short",
            "std::int32_t": "int", "std::int64_t": "long", "std::uint8_t": "unsigned char", "std::uint32_t": "unsigned int", "std::uint64_t": "unsigned long",
            "size_type": "unsigned long", "difference_type": "long"}
STL = {"vector", "unordered_map", "map", "any", "function", "unique_ptr", "shared_ptr", "pair", "tuple", "optional",
       "variant", "initializer_list", "span", "array", "atomic", "set", "unordered_set", "basic_string", "string",
       "basic_ostream", "ostream", "exception", "out_of_range", "bad_any_cast", "bad_cast", "runtime_error",
       "logic_error", "invalid_argument", "allocator", "less", "hash", "equal_to", "char_traits", "basic_string_view",
       "string_view", "basic_stringstream", "stringstream", "basic_ostringstream", "ostringstream", "reference_wrapper",
       "nullopt_t", "integral_constant", "type_info", "default_delete", "deque", "list", "complex", "bad_variant_access",
       "mutex", "lock_guard", "ranges", "filesystem", "iota_view"}


class TypeParser:
    def __init__(self, unit):
        self.unit = unit
        self.cache = {}

    def parse(self, s):
        s0 = s
        r = self.cache.get(s0)
        if r is None:
            self.toks = re.findall(r"\(lambda at [^)]*\)|\(anonymous[^)]*\)|[A-Za-z_$][\w$]*|::|&&|\d+[uUlL]*|[<>,*&()\[\]{}.'\"=-]|\S", s)
            self.i = 0
            try:
                r = self.full()
            except IndexError:
                r = Ty("named", s)
            if self.i < len(self.toks):
                # trailing qualifiers such as 'const', 'noexcept' of member function types
                pass
            self.cache[s0] = r
        return r

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def full(self):
        t = self.base()
        return self.suffix(t)

    def suffix(self, t):
        while True:
            p = self.peek()
            if p in ("const", "volatile", "noexcept", "__restrict", "restrict"):
                self.i += 1
            elif p == "*":
                self.i += 1
                t = Ty("ptr", args=(t,))
            elif p in ("&", "&&"):
                self.i += 1
                if t.k != "ref":
                    t = Ty("ref", args=(t,))
            elif p == "(":
                # function type or pointer to function/array
                j = self.i + 1
                ptr = None
                if j < len(self.toks) and self.toks[j] in ("*", "&"):
                    ptr = self.toks[j]
                    self.i += 2
                    inner_args = None
                    while self.peek() not in (")", "(", "["):
                        self.i += 1
                    if self.peek() == "(":   # (*(args...))(...)   rare
                        depth = 0
                        while True:
                            if self.peek() == "(":
                                depth += 1
                            if self.peek() == ")":
                                depth -= 1
                                if depth < 0:
                                    break
                            self.i += 1
                    self.i += 1
                    t2 = self.suffix(t)
                    t = Ty("ptr" if ptr == "*" else "ref", args=(t2,))
                    continue
                self.i += 1
                ps = []
                while self.peek() != ")":
                    if self.peek() == ",":
                        self.i += 1
                        continue
                    if self.peek() == ".":
                        self.i += 1
                        continue
                    ps.append(self.full())
                self.i += 1
                while self.peek() in ("const", "noexcept", "&", "&&"):
                    self.i += 1
                t = Ty("fn", args=[t] + ps)
            elif p == "[":
                self.i += 1
                n = ""
                while self.peek() != "]":
                    n += self.peek()
                    self.i += 1
                self.i += 1
                t = Ty("arr", n, (t,))
            else:
                return t

    def base(self):
        words = []
        while self.peek() in ("const", "volatile", "typename", "class", "struct", "enum"):
            self.i += 1
        p = self.peek()
        if p.startswith("(lambda") or p.startswith("(anonymous"):
            self.i += 1
            nm = p
            while self.peek() == "::":
                self.i += 1
                nm += "::" + self.toks[self.i]
                self.i += 1
            return Ty("lambda" if nm.startswith("(lambda") else "named", nm)
        if p in ("unsigned", "signed", "long", "short", "int", "char", "bool", "double", "float", "void", "auto", "__int128", "wchar_t"):
            while self.peek() in ("unsigned", "signed", "long", "short", "int", "char", "bool", "double", "float", "void", "const", "auto", "__int128", "wchar_t"):
                if self.peek() != "const":
                    words.append(self.peek())
                self.i += 1
            return self.builtin(words)
        if re.match(r"\d|-|'", p):
            tok = ""
            while self.peek() not in (",", ">", None):
                tok += self.peek()
                self.i += 1
            return Ty("val", tok)
        if p == "<" or p == "{":
            raise IndexError
        # qualified name with template args; args of outer components are kept on the last component only if it has any
        comps = []
        if p == "::":
            self.i += 1
        outer_args = []
        while True:
            nm = self.peek()
            self.i += 1
            if nm.startswith("(anonymous"):
                comps.append((nm, []))
            elif nm.startswith("(lambda"):
                comps.append((nm, []))
            else:
                args = []
                if nm == "operator":
                    raise IndexError
                if self.peek() == "<":
                    self.i += 1
                    while self.peek() != ">":
                        if self.peek() == ",":
                            self.i += 1
                            continue
                        args.append(self.full())
                    self.i += 1
                comps.append((nm, args))
            if self.peek() == "::":
                self.i += 1
                if self.peek() == "template":
                    self.i += 1
                continue
            break
        return self.named(comps)

    def builtin(self, w):
        n = {"unsigned": 0, "signed": 0, "long": 0, "short": 0, "int": 0, "char": 0}
        for x in w:
            n[x] = n.get(x, 0) + 1
        if "bool" in w:
            return Ty("bool", "bool")
        if "double" in w or "float" in w:
            return Ty("real", "float" if "float" in w else ("long double" if n["long"] else "double"))
        if "void" in w:
            return Ty("void", "void")
        if "auto" in w:
            return Ty("auto", "auto")
        if "__int128" in w:
            return Ty("int", "__int128")
        if "wchar_t" in w:
            return Ty("int", "wchar_t")
        if n["char"]:
            return Ty("int", "unsigned char" if n["unsigned"] else ("signed char" if n["signed"] else "char"))
        base = "short" if n["short"] else ("long" if n["long"] else "int")
        return Ty("int", ("unsigned " if n["unsigned"] else "") + base)

    def named(self, comps):
        names = [c[0] for c in comps if c[0] not in ("__cxx11", "__1")]
        args = [a for a in comps[-1][1]]
        full = "::".join(names)
        last = names[-1]
        if full in TYPEDEFS:
            return self.sub(TYPEDEFS[full])
        inner = "::".join(names[1:]) if names[0] == "std" else full
        isstd = names[0] == "std" or (len(names) == 1 and last in STL and not self.unit.is_local_class(last))
        if isstd and last in STL:
            if last in ("string",):
                return Ty("named", "std::string")
            if last == "basic_string":
                return Ty("named", "std::string")
            if last in ("ostream", "basic_ostream"):
                return Ty("named", "std::ostream")
            if last in ("stringstream", "basic_stringstream", "ostringstream", "basic_ostringstream"):
                return Ty("named", "std::stringstream")
            if last in ("string_view", "basic_string_view"):
                return Ty("named", "std::string")
            if last == "vector":
                args = args[:1]
            if last in ("unordered_map", "map"):
                args = args[:2]
            if last == "unique_ptr":
                args = args[:1]
            return Ty("named", "std::" + "::".join(n for n in names if n != "std"), args)
        r = self.unit.resolve_alias(names, comps)
        if r is not None:
            return r
        allargs = []
        for c in comps:
            allargs += c[1]
        rec = self.unit.find_class_name("::".join(names))
        if rec:
            return Ty("named", rec, allargs)
        return Ty("named", full, allargs)

    def sub(self, s):
        sv = (self.toks, self.i)
        r = self.parse(s)
        self.toks, self.i = sv
        return r


# ----------------------------------------------------------------------------- unit
class Unit:
    def __init__(self, name, text, extra_flags=(), filt="NeoFOAM"):
        self.name = name
        d = tempfile.mkdtemp(prefix="cxv_")
        try:
            src = os.path.join(d, "unit.cpp")
            with open(src, "w") as f:
                f.write(text)
            cmd = [CLANG] + BASE_FLAGS + list(extra_flags) + ["-fsyntax-only", "-w", "-ferror-limit=3", "-Xclang", "-ast-dump=json",
                                                             "-Xclang", "-ast-dump-filter=" + filt, src]
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
            self.cmd = " ".join(cmd)
            if r.returncode != 0:
                raise FrontendError("clang failed on unit %s:\n%s" % (name, r.stderr[-3000:]))
        finally:
            subprocess.run(["rm", "-rf", d])
        self.types = TypeParser(self)
        self.byid = {}
        self.classes = {}       # qualified name (with template args string) -> node
        self.class_plain = {}   # plain qualified name -> list of nodes
        self.functions = {}     # qualified name -> list of nodes (with bodies preferred)
        self.defs = {}          # decl id -> definition node
        self.aliases = {}       # last name -> list of (qualname, type string)
        self.short = {}         # short class name -> set of qualified plain names
        self.globals = {}       # qualified name -> VarDecl
        self.enums = {}
        self._alias_busy = set()
        self.load(r.stdout)

    # --- loading
    def load(self, s):
        dec = json.JSONDecoder()
        i = 0
        self.tops = []
        while True:
            j = s.find("{", i)
            if j < 0:
                break
            o, i = dec.raw_decode(s, j)
            self.locwalk(o)
            self.tops.append(o)
        pend = []
        for o in self.tops:
            self.index(o, [], None, pend)
        # second phase: definitions
        for n in pend:
            self.link_def(n)

    def locwalk(self, o):
        """resolve clang's delta-encoded locations: file and line are printed only when they change"""
        last = {"file": None, "line": None}
        st = [o]

        def loc(l):
            if not isinstance(l, dict):
                return
            for sub in ("spellingLoc", "expansionLoc"):
                if sub in l:
                    loc(l[sub])
            if "offset" in l:
                if "file" in l:
                    last["file"] = l["file"]
                else:
                    l["file"] = last["file"]
                if "line" in l:
                    last["line"] = l["line"]
                else:
                    l["line"] = last["line"]

        def walk(n):
            if "loc" in n:
                loc(n["loc"])
            if "range" in n:
                loc(n["range"].get("begin"))
                loc(n["range"].get("end"))
            for c in n.get("inner", ()):
                if isinstance(c, dict):
                    walk(c)
        import sys
        sys.setrecursionlimit(100000)
        walk(o)

    def index(self, n, scope, parent, pend):
        k = n.get("kind")
        if k is None:
            return
        nid = n.get("id")
        n["_parent"] = parent
        n["_scope"] = scope
        if nid and (k.endswith("Decl") or k.endswith("Specialization")):
            self.byid[nid] = n
        name = n.get("name")
        if k == "NamespaceDecl":
            sc = scope + [name or "(anonymous)"]
            # the filter prints e.g. nested namespaces with their bare name; recover qualified parents
            for c in n.get("inner", ()):
                self.index(c, sc, n, pend)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            nm = name or "(anonymous)"
            targs = ""
            if k == "ClassTemplateSpecializationDecl":
                al = self.targs(n)
                n["_targs"] = al
            ns = self.byid.get(n.get("parentDeclContextId"))
            if ns is not None and ns.get("kind") == "NamespaceDecl":       # an explicit instantiation lives where its template does
                scope = ns["_scope"] + [ns.get("name") or "(anonymous)"]
                n["_scope"] = scope
            qn = "::".join(scope + [nm])
            n["_qn"] = qn
            if n.get("completeDefinition") or n.get("definitionData") is not None:
                self.class_plain.setdefault(qn, []).append(n)
                self.short.setdefault(nm, set()).add(qn)
            elif k != "ClassTemplatePartialSpecializationDecl":
                self.short.setdefault(nm, set()).add(qn)
            sc = scope + [nm]
            for c in n.get("inner", ()):
                self.index(c, sc, n, pend)
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl", "CXXDeductionGuideDecl"):
            pend.append(n)
            for c in n.get("inner", ()):
                self.index(c, scope + [name or "?"], n, pend)
            return
        if k == "EnumDecl" and name:
            self.enums["::".join(scope + [name])] = n
        if k in ("TypedefDecl", "TypeAliasDecl"):
            t = n["type"]
            self.aliases.setdefault(name, []).append(("::".join(scope + [name]), t.get("desugaredQualType") or t["qualType"]))
        if k == "VarDecl" and (parent is None or parent.get("kind") in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "VarTemplateDecl", "LinkageSpecDecl")):
            self.globals.setdefault("::".join(scope + [name]), []).append(n)
        for c in n.get("inner", ()):
            if isinstance(c, dict):
                self.index(c, scope, n if k.endswith("Decl") else n, pend)

    def targs(self, n):
        out = []
        for c in n.get("inner", ()):
            if c.get("kind") == "TemplateArgument":
                if "type" in c:
                    t = c["type"]
                    out.append(t.get("desugaredQualType") or t["qualType"])
                elif "value" in c:
                    out.append(str(c["value"]))
                elif c.get("isPack"):
                    for d in c.get("inner", ()):
                        if "type" in d:
                            out.append(d["type"].get("desugaredQualType") or d["type"]["qualType"])
                        elif "value" in d:
                            out.append(str(d["value"]))
                else:
                    out.append("?")
        return out

    def has_body(self, n):
        return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ())) or n.get("explicitlyDefaulted") == "default"

    def link_def(self, n):
        pc = n.get("parentDeclContextId")
        cls = None
        if pc and pc in self.byid:
            cls = self.byid[pc]
        elif n.get("_parent") is not None and n["_parent"].get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            cls = n["_parent"]
        elif n.get("_parent") is not None and n["_parent"].get("kind") == "FunctionTemplateDecl":
            pp = n["_parent"].get("_parent")
            tpc = n["_parent"].get("parentDeclContextId")
            if tpc and tpc in self.byid:
                pp = self.byid[tpc]
            if pp is not None and pp.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
                cls = pp
        n["_class"] = cls if cls is not None and cls.get("kind") != "NamespaceDecl" else None
        if n["_class"] is not None:
            qn = n["_class"].get("_qn", "?") + "::" + n.get("name", "?")
        else:
            if cls is not None and cls.get("kind") == "NamespaceDecl":
                qn = "::".join(cls["_scope"] + [cls.get("name") or "(anonymous)", n.get("name", "?")])
            else:
                qn = "::".join(n["_scope"] + [n.get("name", "?")])
        n["_qn"] = qn
        self.functions.setdefault(qn, []).append(n)
        if self.has_body(n):
            d = n
            seen = set()
            while d is not None and d["id"] not in seen:
                seen.add(d["id"])
                self.defs[d["id"]] = n
                p = d.get("previousDecl")
                d = self.byid.get(p) if p else None
                if d is None and p:
                    self.defs[p] = n

    # --- lookups
    def is_local_class(self, short):
        return short in self.short

    def find_class_name(self, nm):
        if nm in self.class_plain:
            return nm
        last = nm.split("::")[-1]
        c = self.short.get(last, ())
        if not c:
            return None
        cand = [q for q in c if q == nm or q.endswith("::" + nm)]
        if len(cand) == 1:
            return cand[0]
        if len(cand) > 1:
            return sorted(cand, key=len)[0]
        return None

    def resolve_alias(self, names, comps):
        last = names[-1]
        al = self.aliases.get(last)
        if not al:
            return None
        full = "::".join(names)
        cand = [(q, t) for q, t in al if q == full or q.endswith("::" + full)]
        if not cand:
            # names such as NeoFOAM::Field<double>::value_type
            return None
        if self.short.get(last):
            return None
        ts = {t for _, t in cand}
        if len(ts) != 1:
            # several aliases of this name: prefer namespace-level
            cand2 = [(q, t) for q, t in cand if "::".join(q.split("::")[:-1]) not in self.class_plain]
            ts = {t for _, t in cand2}
            if len(ts) != 1:
                return None
        t = ts.pop()
        if t == last or t in self._alias_busy:
            return None
        self._alias_busy.add(t)
        try:
            return self.types.sub(t)
        finally:
            self._alias_busy.discard(t)

    def ty(self, n):
        t = n.get("type") if "type" in n else n
        return self.types.parse(t.get("desugaredQualType") or t["qualType"])

    def ty_written(self, n):
        return self.types.parse(n["type"]["qualType"])

    def find_class(self, ty):
        """record node for a named type"""
        if ty.k not in ("named", "lambda"):
            return None
        cs = self.class_plain.get(ty.name)
        if not cs:
            q = self.find_class_name(ty.name)
            cs = self.class_plain.get(q) if q else None
        if not cs:
            return None
        if not ty.args:
            for c in cs:
                if c["kind"] == "CXXRecordDecl" and not self.is_template_pattern(c):
                    return c
            spec = [c for c in cs if c["kind"] == "ClassTemplateSpecializationDecl"]
            if len(spec) == 1:
                return spec[0]
            # injected class name inside a specialisation
            return spec[0] if spec else cs[0]
        want = [str(a) for a in ty.args]
        for c in cs:
            if c["kind"] == "ClassTemplateSpecializationDecl":
                have = [str(self.types.parse(a)) for a in c["_targs"]]
                if have == want:
                    return c
        # templates nested in specialisations of templates: the arguments of all levels, outermost first
        for c in cs:
            if c["kind"] == "ClassTemplateSpecializationDecl" and [str(self.types.parse(a)) for a in self.all_targs(c)] == want:
                return c
        # nested classes of templates: CXXRecordDecl whose parent specialisation matches
        for c in cs:
            p = c.get("_parent")
            if p is not None and p.get("kind") == "ClassTemplateSpecializationDecl":
                have = [str(self.types.parse(a)) for a in p["_targs"]]
                if have == want[:len(have)]:
                    return c
        for c in cs:
            if c["kind"] == "ClassTemplateSpecializationDecl":
                have = [str(self.types.parse(a)) for a in c["_targs"]]
                if have[:len(want)] == want:
                    return c
        return None

    def all_targs(self, c):
        out = []
        while c is not None:
            if c.get("kind") == "ClassTemplateSpecializationDecl":
                out = list(c.get("_targs", ())) + out
            c = c.get("_parent")
        return out

    def is_template_pattern(self, c):
        p = c.get("_parent")
        return p is not None and p.get("kind") == "ClassTemplateDecl" and c["kind"] == "CXXRecordDecl"

    def bases(self, c):
        out = []
        for b in c.get("bases", ()):
            t = self.types.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            out.append(t)
        return out

    def fields(self, c):
        """[(name, Ty, node)] including base classes' fields, bases first"""
        if "_fields" in c:
            return c["_fields"]
        out = []
        for b in self.bases(c):
            bc = self.find_class(b)
            if bc is not None:
                out += self.fields(bc)
            elif b.name.startswith("std::span"):
                out.append(("$span", b, None))
        for f in c.get("inner", ()):
            if f.get("kind") == "FieldDecl":
                out.append((f.get("name") or "$anon%s" % f["id"], self.ty(f), f))
        c["_fields"] = out
        return out

    def methods(self, c):
        out = []
        for m in c.get("inner", ()):
            k = m.get("kind")
            if k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
                out.append(m)
            elif k == "FunctionTemplateDecl":
                for x in m.get("inner", ()):
                    if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl"):
                        out.append(x)
        return out

    def definition(self, n):
        if self.has_body(n):
            return n
        d = self.defs.get(n.get("id"))
        if d is not None:
            return d
        p = n.get("previousDecl")
        if p:
            return self.defs.get(p)
        return None

    def params(self, n):
        return [c for c in n.get("inner", ()) if c.get("kind") == "ParmVarDecl"]

    def body(self, n):
        for c in n.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    def find_functions(self, qn, params=None, cls=None, const=None, targs=None):
        """all instantiated/defined functions with this qualified name; params: list of normalised type strings"""
        res = []
        seen = set()
        for n in self.functions.get(qn, ()):
            d = self.definition(n)
            if d is None or d["id"] in seen:
                continue
            if self.is_dependent(d):
                continue
            seen.add(d["id"])
            if params is not None:
                ps = [str(self.ty(p)) for p in self.params(d)]
                if ps != [str(self.types.parse(p)) for p in params]:
                    continue
            if const is not None and self.is_const(d) != const:
                continue
            if cls is not None and (d["_class"] is None or d["_class"]["id"] != cls["id"]):
                continue
            if targs is not None:
                have = [str(self.types.parse(a)) for a in self.targs(d)]
                if have != [str(self.types.parse(a)) for a in targs]:
                    continue
            res.append(d)
        return res

    def is_const(self, n):
        q = n["type"]["qualType"]
        return bool(re.search(r"\)\s*const\b", q))

    def is_dependent(self, n):
        """an uninstantiated template pattern"""
        p = n.get("_parent")
        if p is not None and p.get("kind") == "FunctionTemplateDecl":
            first = next((c for c in p.get("inner", ()) if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")), None)
            if first is n:
                return True
        c = n.get("_class")
        seen = 0
        while c is not None and seen < 10:
            if self.is_template_pattern(c) or c["kind"] == "ClassTemplatePartialSpecializationDecl":
                return True
            c = c.get("_parent")
            while c is not None and c.get("kind") in ("ClassTemplateDecl", "FunctionTemplateDecl"):
                c = c.get("_parent")
            if c is not None and c.get("kind") not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
                c = None
            seen += 1
        return False

    def loc(self, n):
        l = n.get("loc") or {}
        l = l.get("expansionLoc", l)
        if not l.get("file"):
            l = (n.get("range") or {}).get("begin") or {}
            l = l.get("expansionLoc", l)
        return "%s:%s" % (l.get("file"), l.get("line"))

    def text(self, n):
        """the source text of a node (None inside macro expansions)"""
        r = n.get("range") or {}
        b, e = r.get("begin") or {}, r.get("end") or {}
        if "offset" not in b or "offset" not in e or not b.get("file") or b.get("file") != e.get("file"):
            return None
        with open(b["file"], "rb") as f:
            return f.read()[b["offset"]:e["offset"] + e.get("tokLen", 1)].decode("utf-8", "replace")

    def sig(self, n):
        return "%s%s" % (n.get("_qn"), n["type"]["qualType"][n["type"]["qualType"].find("("):])


def literals(unit, files):
    """string and integer literals (and their neighbours) in the dumped code: seeds for replay inputs"""
    ss, ii = set(), set()

    def walk(n):
        k = n.get("kind")
        if k == "StringLiteral":
            v = n.get("value", "")
            try:
                ss.add(json.loads(v))
            except Exception:
                ss.add(v.strip('"'))
        elif k == "IntegerLiteral":
            try:
                ii.add(int(n["value"]))
            except Exception:
                pass
        elif k == "CharacterLiteral":
            try:
                ss.add(chr(int(n["value"])))
            except Exception:
                pass
        elif k == "FloatingLiteral":
            try:
                f = float(n["value"])
                if abs(f) < 1e9 and f == int(f):
                    ii.add(int(f))
            except Exception:
                pass
        for c in n.get("inner", ()):
            if isinstance(c, dict):
                walk(c)
    for t in unit.tops:
        walk(t)
    return sorted(ss), sorted(ii)
