"""Front end: type-checked program of /repo/src from clang's JSON AST."""
import json, os, subprocess, glob, hashlib, sys, re
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("SLSM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), "stubs")

class AnalysisBroken(Exception): pass

def norm_type(t):
    if t is None: return ""
    if isinstance(t, dict): t = t.get("desugaredQualType") or t.get("qualType") or ""
    t = re.sub(r"\bconst\b|\bvolatile\b|\bclass\b|\bstruct\b|\benum\b", " ", t)
    t = t.replace("slsm::", "").replace("std::__1::", "std::").replace("std::__cxx11::", "std::").replace("__gnu_cxx::", "")
    t = re.sub(r", std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>", "", t)
    t = re.sub(r", std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>", "", t)
    t = re.sub(r"\s+", " ", t).strip()
    t = t.replace(" >", ">").replace("< ", "<")
    return t
def strip_ref(t):
    t = t.strip()
    while t.endswith("&"): t = t[:-1].strip()
    return t
INT_TYPES = {"unsigned int", "int", "unsigned long", "long", "unsigned long long", "long long", "short", "unsigned short",
             "char", "signed char", "unsigned char", "size_t", "unsigned", "std::size_t", "size_type", "difference_type",
             "std::vector<unsigned int>::size_type", "__int128"}
REAL_TYPES = {"double", "float", "long double"}

class Program:
    def __init__(self):
        self.funcs = {}      # key -> decl node (definition)
        self.byid = {}       # (tu, id) -> node
        self.keyof = {}      # (tu,id) -> function key
        self.records = {}    # name -> record info
        self.enums = {}      # type name -> {const: value}
        self.enum_const = {} # (tu,id) -> (type, value)
        self.enum_domain = {}
        self.files = []
        self.broken_extra = []
        self.const_fields = {}   # name -> (type, init) of const members with an in-class initialiser
        self.globals = {}    # (tu,id) -> VarDecl node
        self.nfunc = 0
        self.idname = {}
        self.tu_flags = {}
        self.defaults = {}
    def find(self, qual, nparams=None, types=None):
        """definitions with qualified name"""
        r = []
        for k, f in self.funcs.items():
            if f["_qual"] == qual:
                ps = params(f)
                if nparams is not None and len(ps) != nparams: continue
                if types is not None and [strip_ref(norm_type(p.get("type"))) for p in ps][:len(types)] != list(types): continue
                r.append(f)
        return r
    def one(self, qual, nparams=None, types=None):
        r = self.find(qual, nparams, types)
        if len(r) != 1:
            raise AnalysisBroken("anchor %s%s: %d definitions found" % (qual, types or (nparams if nparams is not None else ""), len(r)))
        return r[0]

def params(f): return [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]
def body(f):
    for c in f.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"): return c
    return None

def run_clang(src, flags, filt="slsm"):
    cmd = ["clang++", "-std=c++11", "-fsyntax-only", "-w", "-fno-access-control", "-I" + REPO + "/src", "-I" + STUBS] + flags + \
          ["-Xclang", "-ast-dump=json"] + (["-Xclang", "-ast-dump-filter=" + filt] if filt else []) + [src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("clang failed on %s: %s" % (src, r.stderr[-1500:]))
    return r.stdout
def parse_docs(s):
    d = json.JSONDecoder(); i = 0; docs = []; n = len(s)
    ws = re.compile(r"\s*")
    while True:
        i = ws.match(s, i).end()
        if i >= n: break
        o, i = d.raw_decode(s, i); docs.append(o)
    return docs

class _Loc:
    def __init__(self): self.file = None; self.line = None
def fix_locs(n, st):
    """replay clang's delta-encoded locations; sets n['_loc']=(file,line)"""
    def loc(d):
        if not isinstance(d, dict): return None
        if "spellingLoc" in d or "expansionLoc" in d:
            a = loc(d.get("spellingLoc")); b = loc(d.get("expansionLoc")); return b or a
        if "file" in d: st.file = d["file"]
        if "line" in d: st.line = d["line"]
        if "offset" in d: return (st.file, st.line)
        return None
    l = loc(n.get("loc")) if "loc" in n else None
    rng = n.get("range")
    if rng:
        b = loc(rng.get("begin")); loc(rng.get("end"))
        l = l or b
        if n.get("kind") not in ("CXXMethodDecl", "FunctionDecl", "VarDecl", "ParmVarDecl", "FieldDecl", "CXXConstructorDecl"): l = b or l
    n["_loc"] = l
    for c in n.get("inner", []) or []:
        if isinstance(c, dict): fix_locs(c, st)
    # decl refs carry no locations we need
DROP = {"FullComment"}
def load(sources=None, flags=(), extra=(), want_all=True):
    """parse the sources; extra: additional files (specs)"""
    sys.setrecursionlimit(100000)
    prog = Program()
    if sources is None: sources = sorted(glob.glob(REPO + "/src/*.cpp"))
    if not sources: raise AnalysisBroken("no sources in %s/src" % REPO)
    allsrc = list(sources) + list(extra)
    with ThreadPoolExecutor(8) as ex:
        def go(s):
            try: return run_clang(s, list(flags))
            except AnalysisBroken as e:
                if s in sources: raise
                return e
        outs = list(ex.map(go, allsrc))
    for src, out in zip(allsrc, outs):
        if isinstance(out, Exception):
            prog.broken_extra.append((os.path.basename(src), str(out)[:400])); continue
        tu = os.path.basename(src)
        docs = parse_docs(out)
        st = _Loc()
        for d in docs: fix_locs(d, st)
        prog.files.append(src)
        index_tu(prog, tu, docs)
        _unresolved(prog, tu, src, list(flags))
    finish(prog)
    return prog

def _unresolved(prog, tu, src, flags):
    """helpers the author put outside the slsm namespace (e.g. an anonymous namespace)"""
    missing = {}
    for (t, i), nm in list(prog.idname.items()):
        if t != tu or (tu, i) in prog.keyof: continue
        missing[nm[0]] = nm
    try: text = open(src).read()
    except OSError: return
    # include local headers' text? helpers outside namespace live in the source file
    for name in missing:
        if name.startswith("operator") or not re.match(r"^\w+$", name): continue
        if not re.search(r"^[ \t]*(static|inline|template|double|int|unsigned|bool|void|auto|const|std::|slsm::)[^;=\n]*\b%s\s*\(" % re.escape(name), text, re.M): continue
        try: out = run_clang(src, flags, filt=name)
        except AnalysisBroken: continue
        docs = [d for d in parse_docs(out) if d.get("kind") == "FunctionDecl" and d.get("name") == name and body(d)]
        st = _Loc()
        for d in docs: fix_locs(d, st)
        docs = [d for d in docs if d.get("_loc") and d["_loc"][0] and d["_loc"][0].startswith(REPO)]
        if docs:
            index_tu(prog, tu, docs, keep_ids=True)

def index_tu(prog, tu, docs, keep_ids=False):
    recname = {}
    def walk(n, scope, infunc):
        k = n.get("kind")
        if "id" in n: prog.byid[(tu, n["id"])] = n
        inner = n.get("inner") or []
        if inner and any(isinstance(c, dict) and c.get("kind") in DROP for c in inner):
            n["inner"] = inner = [c for c in inner if c.get("kind") not in DROP]
        n["_tu"] = tu
        if k == "NamespaceDecl":
            sc = scope + ([n["name"]] if n.get("name") and n.get("name") != "slsm" else [])
            for c in inner: walk(c, sc, infunc)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            nm = "::".join(scope + [n.get("name", "")]) if not infunc else "local@" + n.get("id", "")
            recname[n.get("id")] = nm
            if n.get("completeDefinition"):
                if nm not in prog.records or infunc:
                    prog.records[nm] = {"name": nm, "fields": [], "node": n, "methods": []}
                    for c in inner:
                        if c.get("kind") == "FieldDecl":
                            prog.records[nm]["fields"].append((c.get("name"), norm_type(c.get("type")), c))
                        if c.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"): prog.records[nm]["methods"].append(c)
            acc = "private" if n.get("tagUsed") == "class" else "public"
            for c in inner:
                if c.get("kind") == "AccessSpecDecl": acc = c.get("access", acc)
                c["_access"] = acc
                walk(c, scope + [n.get("name", "")], infunc)
            return
        if k == "EnumDecl":
            nm = "::".join(scope + [n.get("name", "")])
            v = -1; d = {}
            for c in inner:
                if c.get("kind") == "EnumConstantDecl":
                    val = None
                    for e in c.get("inner", []) or []:
                        cv = const_value(e)
                        if cv is not None and val is None: val = cv
                    v = int(val) if val is not None else v + 1
                    d[c["name"]] = v
                    prog.enum_const[(tu, c["id"])] = (nm, v)
            prog.enums[nm] = d
            return
        if k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "FunctionDecl", "CXXConversionDecl"):
            cls = None
            if k != "FunctionDecl":
                if n.get("parentDeclContextId"): cls = recname.get(n["parentDeclContextId"]) or prog_rec(prog, tu, n["parentDeclContextId"], recname)
                if cls is None and scope: cls = "::".join(scope)
            nm = n.get("name", "")
            qual = (cls + "::" + nm) if cls else "::".join(scope + [nm])
            if not infunc or k == "CXXMethodDecl":
                for i, pp in enumerate(params(n)):
                    if pp.get("inner"): prog.defaults.setdefault((tu, qual, len(params(n)), norm_type({"qualType": n.get("type", {}).get("qualType", "")})), {})[i] = pp["inner"][-1]
                key = qual + "|" + norm_type({"qualType": n.get("type", {}).get("qualType", "")})
                prog.keyof[(tu, n["id"])] = key
                n["_qual"] = qual; n["_key"] = key; n["_cls"] = cls
                if body(n) is not None and not n.get("isImplicit"):
                    if key not in prog.funcs: prog.funcs[key] = n
                elif k == "CXXConstructorDecl" and any(c.get("kind") == "CXXCtorInitializer" for c in inner) and key not in prog.funcs and body(n) is not None:
                    prog.funcs[key] = n
            for c in inner: walk(c, scope, True)
            return
        if k == "VarDecl" and not infunc:
            prog.globals[(tu, n["id"])] = n
        r = n.get("referencedDecl")
        if r and r.get("kind") in ("FunctionDecl", "CXXMethodDecl"): prog.idname[(tu, r["id"])] = (r.get("name"), r.get("type", {}).get("qualType"))
        for c in inner: walk(c, scope, infunc)
    for d in docs:
        if d.get("kind") == "NamespaceDecl": walk(d, [], False)
        else:
            walk(d, [], False)
            if keep_ids:
                for (t, i), nm in list(prog.idname.items()):
                    if t == tu and nm[0] == d.get("name") and (tu, i) not in prog.keyof and nm[1] == d.get("type", {}).get("qualType"):
                        prog.keyof[(tu, i)] = d["_key"]
def field_reads(prog, fnode):
    """names of all members mentioned by a function or anything it can call (by name, transitively)"""
    memo = prog.__dict__.setdefault("_freads", {})
    if "byname" not in memo:
        memo["byname"] = {}
        for f in prog.funcs.values(): memo["byname"].setdefault(f.get("name"), []).append(f)
    if fnode["_key"] in memo: return memo[fnode["_key"]]
    names, seen, work = set(), set(), [fnode]
    while work:
        f = work.pop()
        if f["_key"] in seen: continue
        seen.add(f["_key"])
        st = list(f.get("inner") or [])
        while st:
            n = st.pop()
            if not isinstance(n, dict): continue
            k = n.get("kind"); nm = None
            if k == "MemberExpr": nm = n.get("name"); names.add(nm)
            elif k == "DeclRefExpr": nm = (n.get("referencedDecl") or {}).get("name")
            elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): nm = strip_ref(norm_type(n.get("type"))).split("::")[-1]
            elif k == "CXXCtorInitializer": names.add((n.get("anyInit") or {}).get("name"))
            if nm in memo["byname"]: work += memo["byname"][nm]
            st += n.get("inner") or []
    memo[fnode["_key"]] = names
    return names

def prog_rec(prog, tu, id, recname): return recname.get(id)

def const_value(e):
    if e is None: return None
    if "value" in e and e.get("kind") in ("ConstantExpr", "IntegerLiteral"): 
        try: return int(e["value"])
        except ValueError: return None
    for c in e.get("inner", []) or []:
        v = const_value(c)
        if v is not None: return v
    return None

def finish(prog):
    over = set()
    for f in prog.funcs.values():
        for c in f.get("inner", []) or []:
            if c.get("kind") == "CXXCtorInitializer" and c.get("anyInit"):
                e = (c.get("inner") or [{}])[0]
                if e.get("kind") != "CXXDefaultInitExpr": over.add(c["anyInit"].get("name"))
    seen = {}
    for r in prog.records.values():
        for nm, t, node in r["fields"]:
            qt = (node.get("type") or {}).get("qualType", "")
            init = [x for x in node.get("inner", []) or [] if isinstance(x, dict) and (x.get("kind", "").endswith("Expr") or x.get("kind", "").endswith("Literal"))]
            seen.setdefault(nm, []).append((qt, t, init[-1] if init else None, node))
    for nm, l in seen.items():
        if nm in over or len(set(x[0] for x in l)) != 1: continue
        qt, t, init, node = l[0]
        if init is not None and ("const " in qt or "constexpr " in qt) and not qt.rstrip().endswith(("&", "*")): prog.const_fields[nm] = (t, init)
    # value sets of enum-typed storage: constants that are ever assigned (plus 0 for value-initialised)
    dom = {t: set() for t in prog.enums}
    open_ = set()
    def enum_of(t):
        t = strip_ref(norm_type(t))
        return t if t in prog.enums else None
    def rhs(tu, e, t):
        k = e.get("kind")
        if k == "DeclRefExpr":
            r = e.get("referencedDecl", {})
            if r.get("kind") == "EnumConstantDecl":
                c = prog.enum_const.get((tu, r["id"]))
                if c: dom[t].add(c[1]); return
                # constant from another parse of the header: look up by name
                v = prog.enums[t].get(r.get("name"))
                if v is not None: dom[t].add(v); return
            return      # copy of another variable of the same enum: closed
        if k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "ConstantExpr", "MaterializeTemporaryExpr"):
            if k == "ImplicitCastExpr" and e.get("castKind") == "LValueToRValue": return
            for c in e.get("inner", []): rhs(tu, c, t)
            return
        if k == "ConditionalOperator":
            for c in e["inner"][1:]: rhs(tu, c, t)
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return
        open_.add(t)
    def walk(n, tu):
        k = n.get("kind")
        inner = n.get("inner") or []
        if k == "BinaryOperator" and n.get("opcode") == "=" and len(inner) == 2:
            t = enum_of(inner[0].get("type"))
            if t: rhs(tu, inner[1], t)
        if k in ("VarDecl", "FieldDecl") and inner:
            t = enum_of(n.get("type"))
            if t: rhs(tu, inner[-1], t)
        if k == "CXXOperatorCallExpr" and len(inner) == 3 and enum_of(n.get("type")) and False: pass
        if k == "CXXCtorInitializer" and inner:
            t = enum_of((n.get("anyInit") or {}).get("type"))
            if t: rhs(tu, inner[0], t)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "ReturnStmt", "CXXOperatorCallExpr"):
            for c in inner:
                t = enum_of(c.get("type")) if isinstance(c, dict) else None
                if t and c.get("kind") != "CXXOperatorCallExpr": 
                    try: rhs(tu, c, t)
                    except Exception: open_.add(t)
        for c in inner:
            if isinstance(c, dict): walk(c, tu)
    for k, f in prog.funcs.items(): walk(f, f["_tu"])
    for r in prog.records.values():
        for nm, ty, node in r["fields"]: walk(node, node.get("_tu", ""))
    for t in prog.enums:
        allv = set(prog.enums[t].values())
        d = allv if (t in open_ or not dom[t]) else (dom[t] | ({0} if t.startswith("FMM") or 0 in dom[t] else set()))
        prog.enum_domain[t] = sorted(d)
