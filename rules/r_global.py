"""C46-C50: rules over the whole library."""
import os, re, subprocess, glob, json, tempfile, shutil
from rules.util import *
import terms as T, front, compare
from terms import *
from interp import *
ALL = ["Boundary", "FastMarchingMethod", "Heap", "Hole", "InputOutput", "LevelSet", "Mesh", "Sensitivity", "Optimise"]
STUB = ("-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs"),)
def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        yield x
        st += x.get("inner", []) or []
def own(f): return bool(f.get("_cls")) or True
def functions(ctx):
    """functions of the library (not of the references) with a body"""
    for k, f in sorted(ctx.prog.funcs.items()):
        if "spec::" in f["_qual"]: continue
        yield k, f
def uninit_in(v):
    try: return "uninit(" in show(v)
    except Exception: return "uninit" in repr(v)
def implicit(f): return f.get("isImplicit") or f.get("explicitlyDefaulted")
def c46(ctx):
    """Definite-initialisation analysis: every constructor of every class is interpreted from storage in which each scalar member is indeterminate; after each normal completion no scalar member (members of member objects included) may still hold, under any condition, its indeterminate value. Objects of classes without a constructor must have every member stored before the routine that declares them ends."""
    n = 0
    for flags in ((), ("-DPYBIND",)):
        ctx.load(ALL, flags=flags)
        fs = list(functions(ctx))
        ni = tuple({f["_qual"] for k, f in fs if f.get("_cls") and f.get("kind") != "CXXConstructorDecl"})
        have = set()
        for k, f in fs:
            if f.get("kind") != "CXXConstructorDecl": continue
            cls = f["_cls"]
            if implicit(f) and front.params(f) : continue       # copies and moves
            have.add(cls)
            if flags and "MutableFloat" not in k and cls not in ("MutableFloat", "Callback", "Optimise"): continue
            try: I = ctx.summ(f, opts={"keep_uninit": True}, noinline=ni)
            except front.AnalysisBroken as e: ctx.und(e); continue
            if I.undecided: ctx.und("%s: %s" % (f["_qual"], I.undecided[:2]))
            for su, t in I.leaves(cls):
                if "[" in su: continue
                n += 1
                v = I.read(Ref("$this" + su, (), t), I.finalpc)
                if isinstance(v, (Poly, Bdd)): v = under(v, I.finalpc) if isinstance(v, Poly) else b_restrict(v, I.finalpc)
                if v is not None and uninit_in(v): ctx.fail("leaves member %s indeterminate" % su[1:], loc_of(I, f), "%s (%s)" % (f["_qual"], ", ".join(str(front.norm_type(p["type"])) for p in front.params(f))))
                else: ctx.ok()
        if flags: continue
        # aggregates
        for cls, r in ctx.prog.records.items():
            if cls in have or not r["fields"] or "spec" in cls: continue
            if any("CXXConstructorDecl" == m.get("kind") and not m.get("isImplicit") for m in r["methods"]): continue
            for k, f in fs:
                vs = [x for x in walk(f) if x.get("kind") == "VarDecl" and front.norm_type(x.get("type")) == cls]
                if not vs: continue
                try: I = ctx.summ(f, opts={"keep_uninit": True}, noinline=ni)
                except front.AnalysisBroken as e: ctx.und(e); continue
                for v in vs:
                    pats = {p for p in I.mem.d if re.match(r"%%[\w']+\.%s(~\d+)?\." % re.escape(v.get("name") or "?"), p)}
                    roots = {p.rsplit(".", 1)[0] for p in pats}
                    for root in roots:
                        for nm, t, _ in r["fields"]:
                            x = I.read(Ref(root + "." + nm, (), t), TRUE)
                            if x is not None and uninit_in(x): ctx.fail("member %s of the local %s is never given a value" % (nm, v.get("name")), I.loc(v), f["_qual"])
                            else: ctx.ok()
    ctx.sites = n
def loc_of(I, f):
    try: return I.loc(f)
    except Exception: return f["_qual"]

def c47(ctx):
    """Query over the typed syntax tree of every function of the library: no local declaration has a variable-length array type, no call to alloca, no array new placed on the stack through a typedef, and no cycle in the call graph (recursion is reported as undecided, except the constraint removal of Optimise, which C39 shows to drop a constraint per level)."""
    seen = set(); n = 0
    for flags in ((), ("-DPYBIND",)):
        ctx.load(ALL, flags=flags)
        for k, f in functions(ctx):
            if f.get("isImplicit"): continue
            I = Interp(ctx.prog); n += 1
            for x in walk(f):
                if x.get("kind") == "VarDecl":
                    t = x.get("type") or {}
                    for q in (t.get("desugaredQualType"), t.get("qualType")):
                        m = re.findall(r"\[([^\]]*)\]", str(q or ""))
                        if m and any(not re.match(r"^\d*$", y) for y in m) and "<" not in str(q):
                            at = (f["_qual"], x.get("name"))
                            if at not in seen: ctx.fail("puts the array %s %s on the stack" % (x.get("name"), q), I.loc(x), f["_qual"])
                            seen.add(at); break
                    else: ctx.ok()
                if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("name") in ("alloca", "__builtin_alloca", "__builtin_alloca_with_align"):
                    at = (f["_qual"], "alloca", I.loc(x))
                    if at not in seen: ctx.fail("allocates on the stack with alloca", I.loc(x), f["_qual"])
                    seen.add(at)
            ctx.functions.add(f["_qual"])
        # recursion
        g = {}
        for k, f in functions(ctx):
            g[k] = set()
            for x in walk(f):
                r = None
                if x.get("kind") == "DeclRefExpr": r = (x.get("referencedDecl") or {}).get("id")
                elif x.get("kind") == "MemberExpr": r = x.get("referencedMemberDecl")
                if r is None: continue
                q = ctx.prog.keyof.get((f.get("_tu"), r))
                if q: g[k].add(q)
        for k in g:
            st = list(g[k]); vis = set()
            while st:
                y = st.pop()
                if y in vis: continue
                vis.add(y); st += list(g.get(y, ()))
            if k in vis and ctx.prog.funcs[k]["_qual"] != "Optimise::computeConstraintDistances": ctx.und("%s is recursive: depth not bounded here" % ctx.prog.funcs[k]["_qual"])
    ctx.sites = n

# ------------------------------------------------------------------------------------------------ C48
LS = "LevelSet::"; FM = "FastMarchingMethod::"
UI2 = ["unsigned int", "unsigned int"]
def vt(*x): return UI2 + ["std::vector<%s>" % y for y in x]
# validating routine -> (reference, parameter types/count, extra equiv arguments)
CHECKED = [
    ("Heap::push", "Heap_push", 2, None), ("Heap::pop", "Heap_pop", 2, None), ("Heap::peek", "Heap_peek", 0, None),
    (FM + "initialiseFrozen", "FMM_initialiseFrozen", 0, None), (FM + "finaliseVelocity", "FMM_finaliseVelocity", 1, None),
    (LS + "LevelSet", "LS_ctorDefault", 5, None), (LS + "LevelSet", "LS_ctorHoles", 6, vt("Hole")), (LS + "LevelSet", "LS_ctorPoints", 6, vt("Coord")),
    (LS + "LevelSet", "LS_ctorHolesHoles", 7, vt("Hole", "Hole")), (LS + "LevelSet", "LS_ctorHolesPoints", 7, vt("Hole", "Coord")), (LS + "LevelSet", "LS_ctorPointsPoints", 7, vt("Coord", "Coord")),
    (LS + "initialise", "LS_initialiseCheese", 0, None),
    ("Optimise::Optimise", "O_ctor", 8, None),
]
SELFTEST = ("Heap::test",)       # run only on request (isTest)
IOFUN = "InputOutput::"          # guards of these are the subject of C41 and C43
def diag(e):
    """the event writes text to a stream"""
    return e.kind == "lib" and e.data[0] in ("fprintf", "fputs", "perror", "printf", "puts", "fwrite", "vfprintf") or e.kind in ("out", "stream", "manip") or e.kind == "call" and "operator<<" in str(e.data)[:200]
def c48(ctx):
    """Exit analysis of every function in each build configuration: the condition under which each validating routine completes must equal the documented validity condition (reference), no other routine may end the program, every feasible call of a terminating function has a failure status and is preceded on the same path by a diagnostic, and no element access, division or call on that path uses the validated quantity before the check."""
    n = 0
    with open(os.path.join(os.path.dirname(os.path.abspath(front.__file__)), "functions.json")) as f: known = set(json.load(f))
    for flags in ((), ("-DPYBIND", "-DNDEBUG")):
        ctx.load(ALL, ["heap", "fmm", "levelset", "optimise"], flags=flags)
        fs = list(functions(ctx))
        allq = {f["_qual"] for k, f in fs}
        deep = tuple(sorted(q for q in allq if q in known))
        table = CHECKED + ([("Optimise::Optimise", "O_ctorPy", 7, None)] if flags else [])
        for q, spec, np, ty in table:
            ctx.equiv(q, spec, np, types=ty, noinline=tuple(x for x in deep if x != q or q == LS + "initialise"), only=(), calls=False, ret=False)
        val = {q for q, _, _, _ in table}
        for k, f in fs:
            q = f["_qual"]
            if f.get("isImplicit") or q not in known: continue      # helpers added later are inlined into their callers
            try: I = ctx.summ(f, noinline=tuple(x for x in deep if x != q or q == LS + "initialise"), unroll=1 if q.startswith(FM) else 9)
            except front.AnalysisBroken as e: ctx.und(e); continue
            n += 1
            if I.undecided: ctx.und("%s: %s" % (q, I.undecided[:1]))
            ex = [e for e in I.events if e.kind == "exit" and T.sat(e.pc)]
            if not ex: ctx.ok(); continue
            if q not in val and q not in SELFTEST and not q.startswith(IOFUN):
                for e in ex: ctx.fail("ends the program when %s, although it has no precondition to validate" % show(e.pc)[:200], e.loc, q)
                continue
            for e in ex:
                name, vals = e.data
                if name in ("exit", "_Exit", "quick_exit", "_exit"):
                    c = vals[0].const() if vals and isinstance(vals[0], Poly) else None
                    if c is None: ctx.und("%s: exit status %s" % (q, vals))
                    elif int(c) % 256 == 0: ctx.fail("a failed validation ends the program with a success status", e.loc, q); continue
                g = FALSE
                for d in I.events:
                    if d.n < e.n and diag(d): g = b_or(g, d.pc)
                bare = b_and(e.pc, b_not(g))
                if T.sat(bare): ctx.fail("ends the program without a diagnostic when %s" % show(bare)[:200], e.loc, q)
                else: ctx.ok()
                used_before(ctx, I, e, q)
    ctx.sites = n
def atoms_of(x):
    try: return {a for a in all_syms(x) if not str(a.args[0]).startswith("φ")}
    except Exception: return set()
def used_before(ctx, I, e, q):
    """what the exit condition tests must not have been used as (part of) an index, divisor or length before"""
    qs = atoms_of(e.pc)
    for d in I.events:
        if d.n >= e.n or d.kind not in ("read", "write", "div"): continue
        if d.kind == "div": terms = [d.data[1]]
        else:
            r = d.data if isinstance(d.data, Ref) else d.data[0] if isinstance(d.data, tuple) and isinstance(d.data[0], Ref) else None
            if r is None: continue
            terms = list(r.idx)
        if any(isinstance(x, (Poly, Bdd)) and (qs & atoms_of(x)) for x in terms) and T.sat(b_and(d.pc, e.pc)):
            ctx.fail("uses %s before it has been checked (the check at %s comes later)" % ([show(x) for x in terms][:1], e.loc), d.loc, q); return
    ctx.ok()

# ------------------------------------------------------------------------------------------------ C49
def marked(x):
    """neighbour-list entries of mesh nodes the term consists of"""
    return compare.find_atoms(x, lambda a: a.kind == "rd" and NODENB.search(str(a.args[0])))
NODENB = re.compile(r"nodes\[\*\]\.neighbours\[\*\]$")
def c49(ctx):
    """Guard entailment at every indexed access and every call: for each index (or argument used as an index by its callee) that is an entry of a mesh node's neighbour list, the path condition together with index == marker must be infeasible; the class constant compared with is shown to equal the marker on completion of the constructor."""
    n = 0
    with open(os.path.join(os.path.dirname(os.path.abspath(front.__file__)), "functions.json")) as f: known = set(json.load(f))
    for flags in ((), ("-DPYBIND",)):
        ctx.load(ALL, flags=flags)
        fs = [(k, f) for k, f in functions(ctx) if not f.get("isImplicit")]
        deep = tuple(sorted({f["_qual"] for k, f in fs} & known))
        one = lambda f: ctx.summ(f, noinline=tuple(x for x in deep if x != f["_qual"]), unroll=1 if f["_qual"].startswith(FM) else 9)
        # members that always equal the marker
        same = {}
        for k, f in fs:
            if f.get("kind") != "CXXConstructorDecl" or "mesh" not in [x[0] for x in ctx.prog.records.get(f["_cls"], {}).get("fields", ())]: continue
            if implicit(f): continue
            I = one(f)
            for nm, t, _ in ctx.prog.records[f["_cls"]]["fields"]:
                if t != "unsigned int": continue
                v = I.read(Ref("$this." + nm, (), t), I.finalpc)
                ok = isinstance(v, Poly) and re.search(r"nNodes$", show(v)) is not None
                same.setdefault((f["_cls"], nm), []).append(ok)
        same = {k for k, v in same.items() if all(v)}
        for k, f in fs:
            q = f["_qual"]
            if q not in known: continue
            try: I = one(f)
            except front.AnalysisBroken as e: ctx.und(e); continue
            if I.undecided: ctx.und("%s: %s" % (q, I.undecided[:1]))
            used = False
            for e in I.events:
                if e.kind in ("read", "write"): r = e.data if isinstance(e.data, Ref) else e.data[0]; idx = list(r.idx) if isinstance(r, Ref) else []
                elif e.kind == "access": idx = [e.data[1]]
                elif e.kind == "call" and e.data[0] in known:
                    for j, v in enumerate(e.data[2]):
                        if not isinstance(v, Poly) or not marked(v): continue
                        g = ctx.prog.funcs.get(e.data[3])
                        if g is None: continue
                        G = one(g)
                        par = lambda a: a.kind == "sym" and a.args[0] == "$p:%d" % j
                        for d in G.events:
                            ii = list((d.data if isinstance(d.data, Ref) else d.data[0]).idx) if d.kind in ("read", "write") and isinstance(d.data if isinstance(d.data, Ref) else d.data[0], Ref) else []
                            for x in ii:
                                if isinstance(x, Poly) and compare.find_atoms(x, par) and T.sat(b_and(d.pc, eq(x, marker(I, e, x)))): idx = [v]; break
                            else: continue
                            break
                        else: idx = []
                        n += judge(ctx, I, e, idx, q, same, "passes the entry to %s, which uses it" % e.data[0])
                    continue
                else: continue
                n += judge(ctx, I, e, idx, q, same, "uses the entry")
    ctx.sites = n
def marker(I, e, x): return T.sym("#marker", isint=True)
def judge(ctx, I, e, idx, q, same, what):
    k = 0
    for x in idx:
        if not isinstance(x, Poly): continue
        for a in marked(x):
            root = str(a.args[0]).split("nodes[*]")[0]
            m = nnodes(I, root)
            if x.hasite is False and (len(x.items) != 1 or x.items[0][1] != 1): ctx.und("%s: index %s computed from a neighbour list" % (q, show(x)[:100])); continue
            k += 1
            mem = {}
            for cls, nm in same: mem[nm] = m
            bad = b_and(b_and(e.pc, ge(m, ONE)), b_and(eq(x, m), eq(T.of_atom(a), m)))
            for nm in mem: bad = b_and(bad, eq(I.read(Ref("$this." + nm, (), "unsigned int"), TRUE), m))
            if T.sat(bad): ctx.fail("%s %s of a neighbour list as a node index although it may be the out-of-range marker (when %s)" % (what, show(x)[:120], show(e.pc)[:160]), e.loc, q)
            else: ctx.ok()
    return k
def nnodes(I, root): return I.read(Ref(root + "nNodes", (), "unsigned int"), TRUE)

# ------------------------------------------------------------------------------------------------ C50
def cc(args, text=None):
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "tu.cpp")
        if text is not None:
            with open(src, "w") as f: f.write(text)
            args = args + [src]
        return subprocess.run(["clang++", "-std=c++11", "-w", "-I" + os.path.join(front.REPO, "src"), "-I" + front.STUBS] + args, capture_output=True, text=True, cwd=d)
DEF = re.compile(r'^define\s+(.*?)@("[^"]+"|[\w.$]+)\(', re.M)
GLO = re.compile(r'^@("[^"]+"|[\w.$]+) = (.*)$', re.M)
WEAKISH = re.compile(r"\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally|appending|extern_weak|external)\b")
def strong(ir):
    """names the module defines with strong external linkage"""
    r = []
    for m in DEF.finditer(ir):
        if not WEAKISH.search(m.group(1)): r.append(m.group(2).strip('"'))
    for m in GLO.finditer(ir):
        if not WEAKISH.search(m.group(2).split(" global ")[0].split(" constant ")[0] if re.search(r" (global|constant) ", m.group(2)) else "internal"): r.append(m.group(1).strip('"'))
    return [x for x in r if not x.startswith("llvm.")]
def demangle(x):
    try: return subprocess.run(["c++filt", x], capture_output=True, text=True).stdout.strip() or x
    except OSError: return x
def c50(ctx):
    """Each header is type-checked alone, twice in a row, first and last among all the others, in every build configuration; the compiler's intermediate code of a source file that only includes headers must contain no strong definition, that of the whole library no symbol with two, and every function a header declares must have a body in the library."""
    from concurrent.futures import ThreadPoolExecutor
    hs = sorted(os.path.basename(h) for h in glob.glob(os.path.join(front.REPO, "src", "*.h")) + glob.glob(os.path.join(front.REPO, "src", "*.hpp")))
    inc = lambda l: "".join('#include "%s"\n' % h for h in l)
    jobs = []
    for flags in ([], ["-DPYBIND"], ["-DNDEBUG"]):
        for h in hs:
            o = [x for x in hs if x != h]
            jobs.append((flags, h, "alone", inc([h])))
            jobs.append((flags, h, "twice", inc([h, h])))
            jobs.append((flags, h, "before the others", inc([h] + o)))
            jobs.append((flags, h, "after the others", inc(o[::-1] + [h])))
            if ctx.thorough:
                for x in o: jobs.append((flags, h, "after %s" % x, inc([x, h])))
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda j: cc(j[0] + ["-fsyntax-only"], j[3]), jobs))
    bad = set()
    for (flags, h, how, _), r in zip(jobs, outs):
        if r.returncode == 0: ctx.ok(); continue
        es = re.findall(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", r.stderr)
        if (how != "alone" and (h, "alone") in bad): continue
        if es and all("nlopt" in e[2] or "pybind11" in e[2] for e in es): ctx.und("%s needs declarations the stand-ins do not have: %s" % (h, es[0][2])); continue
        if (h, how) in bad: continue
        bad.add((h, how))
        e = es[0] if es else ("src/" + h, "1", r.stderr[:200])
        ctx.fail("%s does not compile when included %s%s: %s" % (h, how, " with " + flags[0] if flags else "", e[2]), "src/%s:%s" % (os.path.basename(e[0]), e[1]), h)
    if not bad:
        for flags in ([], ["-DPYBIND"], ["-DNDEBUG"]):
            jobs = [(h, inc([h])) for h in hs] + [("all headers", inc(hs))]
            with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda j: cc(flags + ["-O0", "-S", "-emit-llvm", "-o", "-"], j[1]), jobs))
            seen = set()
            for (h, _), r in zip(jobs, outs):
                if r.returncode: ctx.und("%s: %s" % (h, r.stderr[:200])); continue
                for x in strong(r.stdout):
                    if x in seen: continue
                    seen.add(x); ctx.fail("including %s defines %s: two source files that do so cannot be linked" % (h, demangle(x)), "src/" + h, h)
                ctx.ok()
            if "-DNDEBUG" in flags: continue
            srcs = sorted(glob.glob(os.path.join(front.REPO, "src", "*.cpp")))
            with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda s: cc(flags + ["-O0", "-S", "-emit-llvm", "-o", "-", s]), srcs))
            where = {}
            for s, r in zip(srcs, outs):
                if r.returncode: ctx.und("%s: %s" % (os.path.basename(s), r.stderr[:200])); continue
                for x in strong(r.stdout): where.setdefault(x, []).append(os.path.basename(s))
            for x, l in sorted(where.items()):
                if len(l) > 1: ctx.fail("%s is defined by %s" % (demangle(x), " and ".join(l)), "src/" + l[0], demangle(x))
                else: ctx.ok()
    n = 0
    for flags in ((), ("-DPYBIND",)):
        ctx.load(ALL, flags=flags)
        for cls, r in sorted(ctx.prog.records.items()):
            if "local@" in cls or "spec" in cls: continue
            for m in r["methods"]:
                if m.get("isImplicit") or m.get("explicitlyDeleted") or m.get("explicitlyDefaulted") or m.get("pure") or m.get("name", "").startswith("~") and front.body(m): continue
                n += 1
                key = "%s::%s|%s" % (cls, m["name"], norm_type({"qualType": m["type"]["qualType"]}))
                if key in ctx.prog.funcs or front.body(m) is not None: ctx.ok(); ctx.functions.add("%s::%s" % (cls, m["name"]))
                else: ctx.fail("%s::%s is declared but no source file of the library defines it" % (cls, m["name"]), "src/%s" % os.path.basename(str((m.get("_loc") or ("?",))[0])), cls)
    ctx.sites = n + len(hs)
RULES = {"C50": c50, "C49": c49, "C46": c46, "C47": c47, "C48": c48}
