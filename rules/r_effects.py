"""C52-C53: what operations leave alone."""
import re
from rules.util import *
import terms as T, front
from terms import *
from interp import *
from rules.r_global import walk, functions, ALL
# queries and writers; numbers: parameters that are outputs by their interface
OBSERVERS = {"Heap::peek": (), "Heap::empty": (), "Heap::size": (), "Heap::test": (), "Mesh::getClosestNode": (), "Mesh::getElement": (),
             "LevelSet::computeGradient": (), "LevelSet::gradHJWENO": (), "LevelSet::isInsidePolygon": (), "LevelSet::isLeftOfLine": (), "LevelSet::isClockwise": (),
             "LevelSet::pointToLineDistance": (), "LevelSet::cutArea": (), "LevelSet::polygonArea": (0,), "Boundary::computePerimeter": (), "Boundary::segmentLength": (),
             "MersenneTwister::getSeed": (), "Optimise::queryReturnCode": (),
             "InputOutput::saveLevelSetVTK": (), "InputOutput::saveLevelSetTXT": (), "InputOutput::saveLevelSetBIN": (), "InputOutput::saveBoundaryPointsTXT": (),
             "InputOutput::saveBoundarySegmentsTXT": (), "InputOutput::saveAreaFractionsVTK": (), "InputOutput::saveAreaFractionsTXT": ()}
STREAMISH = re.compile(r"stream|FILE")
def rootpat(p):
    m = re.match(r"^(\$this|\$p:\d+|\$g:[\w:]+)(.*)$", p)
    return m.group(1) if m else None
def c52(ctx):
    """Effect analysis of every query and every writer, callees included: no store, growth or fill reaches the object, an argument that is not an output, or static storage, unless the value stored is the one already there."""
    ctx.load(ALL)
    n = 0
    for k, f in functions(ctx):
        q = f["_qual"]
        if q not in OBSERVERS or f.get("isImplicit"): continue
        try: I = ctx.summ(f, unroll=1)
        except front.AnalysisBroken as e: ctx.und(e); continue
        n += 1
        if I.undecided: ctx.und("%s: %s" % (q, I.undecided[:1]))
        outs = {"$p:%d" % i for i in OBSERVERS[q]}
        seen = set()
        for e in I.events:
            if e.kind not in ("write", "push", "resize", "clear", "fill", "insert", "pop", "erase", "delete", "copy", "swap"): continue
            d = e.data if isinstance(e.data, tuple) else (e.data,)
            r = d[0]
            if not isinstance(r, Ref): continue
            root = rootpat(r.pat)
            if root is None or root in outs: continue
            if STREAMISH.search(r.ty or "") or root in ("$g:cout", "$g:cerr", "$g:clog"): continue
            if root.startswith("$p:") and not re.search(r"[&*\]]", str((front.params(f)[int(root[3:])].get("type") or {}).get("qualType", ""))): continue
            if e.pc is FALSE or not T.sat(e.pc): continue
            p0 = r.pat.split("[")[0]
            if p0 in seen: continue
            # the value it had is put back
            v = I.mem.d.get(r.pat)
            if e.kind == "write" and isinstance(v, Poly) and not r.idx and not e.loops:
                a = v.single()
                if a is not None and a.kind == "rd" and a.args[0] == r.pat and a.args[1] == "": ctx.ok(); continue
            if e.kind == "write" and isinstance(d[1], Poly) and d[1] is e_entry(I, r): ctx.ok(); continue
            seen.add(p0)
            what = "the object" if root == "$this" else "an argument that is not an output" if root.startswith("$p:") else "static storage"
            ctx.fail("changes %s (%s) of a query" % (p0.replace("$this.", "this->").replace("$p:", "argument "), what), e.loc, q)
        if not seen: ctx.ok()
        ctx.functions.add(q)
    ctx.sites = n
def e_entry(I, r):
    try: return of_atom(T.atom("rd", r.pat, "", *([tuple(r.idx)] if r.idx else [()])))
    except Exception: return None

LIBSTATE = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "strtok", "asctime", "ctime", "gmtime", "localtime", "setlocale", "tmpnam", "setenv", "putenv", "chdir", "umask", "fesetround"}
def is_const(t): return bool(re.search(r"(^|\s)const\b(?!.*[*&]\s*$)|[*]\s*const$|&$", t.strip()))
def modified(ctx, name, ident=None):
    """whether any use of the variable is more than reading its value"""
    for k, f in functions(ctx):
        st = [(f, None)]
        while st:
            x, par = st.pop()
            if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("name") == name and (ident is None or x["referencedDecl"].get("id") == ident):
                if not (par is not None and (par.get("castKind") in ("LValueToRValue", "ToVoid"))): return True
            for c in x.get("inner") or []: st.append((c, x))
    return False
def c53(ctx):
    """Query over the type-checked syntax tree of the whole library in both configurations: no variable with static storage (namespace scope, class static, function static) that is not constant, no mutable member behind a const interface, and no call of a C library routine that keeps hidden state."""
    done = set(); n = 0
    for flags in ((), ("-DPYBIND",)):
        ctx.load(ALL, flags=flags)
        I = Interp(ctx.prog)
        for (tu, i), v in sorted(ctx.prog.globals.items(), key=lambda x: str(x[1].get("name"))):
            t = str((v.get("type") or {}).get("qualType", "")); n += 1
            key = ("g", v.get("name"))
            if v.get("constexpr") or is_const(t) or v.get("storageClass") == "extern" or v.get("isImplicit"): ctx.ok(); continue
            if v.get("tls"): ctx.und("thread-local %s" % v.get("name")); continue
            if key in done: continue
            if not modified(ctx, v.get("name")): ctx.ok(); continue
            done.add(key); ctx.fail("variable %s (%s) with static storage is shared by all objects" % (v.get("name"), t), I.loc(v), str(v.get("name")))
        for k, f in functions(ctx):
            if f.get("isImplicit"): continue
            for x in walk(f):
                if x.get("kind") == "VarDecl":
                    n += 1
                    t = str((x.get("type") or {}).get("qualType", ""))
                    if x.get("storageClass") == "static" and not x.get("constexpr") and not is_const(t):
                        key = (f["_qual"], x.get("name"))
                        if x.get("tls"): ctx.und("thread-local %s in %s" % (x.get("name"), f["_qual"]))
                        elif not modified(ctx, x.get("name"), x.get("id")): ctx.ok()
                        elif key not in done: done.add(key); ctx.fail("static local %s (%s) is shared by all objects and calls" % (x.get("name"), t), I.loc(x), f["_qual"])
                    else: ctx.ok()
                if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("kind") == "FunctionDecl" and (x.get("referencedDecl") or {}).get("name") in LIBSTATE:
                    key = (f["_qual"], x["referencedDecl"]["name"])
                    if key not in done: done.add(key); ctx.fail("calls %s, which keeps state shared by the whole process" % key[1], I.loc(x), f["_qual"])
            ctx.functions.add(f["_qual"])
        for c, r in sorted(ctx.prog.records.items()):
            for x in (r["node"].get("inner") or []):
                if x.get("kind") == "FieldDecl":
                    n += 1
                    if x.get("mutable"):
                        if (c, x.get("name")) not in done: done.add((c, x.get("name"))); ctx.fail("member %s changes behind const operations on %s" % (x.get("name"), c), I.loc(x), c)
                    else: ctx.ok()
    ctx.sites = n
RULES = {"C52": c52, "C53": c53}
