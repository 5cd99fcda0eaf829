"""C45: the random number generator."""
import re
from rules.util import *
import terms as T, front
from terms import *
from interp import *
M_ = "MersenneTwister::"
# stateful standard distributions keep a drawn value back; the uniform ones do not
STATEFUL = ("normal_distribution", "gamma_distribution", "lognormal_distribution", "student_t", "chi_squared", "fisher_f", "negative_binomial", "poisson", "binomial")
DRAWS = {"operator()": {0: ("uniform_real_distribution", ("0", "1"))}, "integer": {2: ("uniform_int_distribution", ("$p:0", "$p:1"))},
         "normal": {0: ("normal_distribution", ("0", "1")), 2: ("normal_distribution", ("$p:0", "$p:1"))}}
def head(v):
    a = v.single() if isinstance(v, Poly) else None
    return (str(a.args[0]), a.args[1:]) if a is not None and a.kind == "fn" else (None, ())
def final(I, p, ty):
    v = I.read(Ref(p, (), ty), I.finalpc)
    return under(v, I.finalpc) if isinstance(v, (Poly, Bdd)) else v
def statics(f):
    st = [f]
    while st:
        n = st.pop()
        if n.get("kind") == "VarDecl" and n.get("storageClass") == "static" and not n.get("constexpr") and not str((n.get("type") or {}).get("qualType", "")).startswith("const "): yield n
        st += [c for c in n.get("inner", []) if isinstance(c, dict)]
def cases(v, pc):
    """the values a term takes, by guard"""
    if not isinstance(v, (Poly, Bdd)): return [(pc, v)]
    a = v.single() if isinstance(v, Poly) else None
    if a is not None and a.kind == "ite": return cases(under(v, b_and(pc, a.args[0])), b_and(pc, a.args[0])) + cases(under(v, b_and(pc, b_not(a.args[0]))), b_and(pc, b_not(a.args[0])))
    return [(pc, v)]
def c45(ctx):
    """Effect analysis of the generator class: the state any draw reads and changes is collected; setSeed must give every such member a value that depends on the new seed alone (reseeding or rebuilding the engine, resetting or rebuilding distributions that keep drawn values, scalars from the seed only), store the seed it uses, and the constructor must report the seed it used; draws use the engine member and the documented distribution and parameters, and keep no static state."""
    ctx.load(["LevelSet"])
    cls = ctx.prog.records.get("MersenneTwister")
    if cls is None: ctx.und("MersenneTwister is gone"); return
    fields = [(n, t) for n, t, _ in cls["fields"]]
    eng = [n for n, t in fields if "mersenne_twister_engine" in t or "mt19937" in t]
    if len(eng) != 1: ctx.und("engine members: %s" % eng); return
    eng = "$this." + eng[0]; fty = {"$this." + n: t for n, t in fields}
    ctx.assumptions += ["std engines are determined by the value last passed to seed() or their constructor; uniform distributions keep no state"]
    # ---- draws
    state = {eng}; consts = {}
    ctor = ctx.prog.find(M_ + "MersenneTwister", 0)
    ctor = ctor[0] if len(ctor) == 1 else None
    C = ctx.summ(ctor) if ctor is not None else None
    for m, forms in DRAWS.items():
        for f in ctx.prog.find(M_ + m, None):
            n = len(front.params(f)); I = ctx.summ(f); fname = M_ + m; loc = I.events[-1].loc if I.events else ""
            if I.undecided: ctx.und("%s: %s" % (m, I.undecided[:2])); continue
            for v in statics(f):
                if any(x in str(v["type"]) for x in STATEFUL) or "distribution" not in str(v["type"]): ctx.fail("keeps state in the static variable %s, which reseeding does not reset" % v.get("name"), loc, fname)
            for p in I.mem.d:
                if p.startswith("$this."): state.add(p)
                if p.startswith("$g:") : ctx.fail("changes global state %s" % p, loc, fname)
            calls = [e for e in I.events if e.kind == "call" and e.data[0] == "operator()"]
            for e in calls:
                if isinstance(e.data[1], Ref) and e.data[1].pat.startswith("$this."): state.add(e.data[1].pat)
            for e in I.events:
                if e.kind in ("construct",) and "random_device" in str(e.data[0]) or e.kind == "lib" and e.data[0] in ("rand", "time", "clock", "drand48", "random"):
                    ctx.fail("draws from a source that the seed does not determine", e.loc, fname)
            if n not in forms: continue
            fam, par = forms[n]
            if any("random_device" in e.data[3] for e in calls): ctx.fail("draws from the hardware source", loc, fname); continue
            if any(isinstance(e.data[1], Ref) and e.data[1].pat == eng for e in calls): ctx.und("%s: built from raw engine numbers" % m); continue
            if len(calls) != 1: ctx.und("%s: %d draws" % (m, len(calls))); continue
            e = calls[0]; g = e.data[2][0] if e.data[2] else None
            if not (isinstance(g, Ref) and g.pat == eng): ctx.fail("draws from %s instead of the seeded engine" % (g,), e.loc, fname)
            else: ctx.ok()
            o = e.data[1]
            if fam not in e.data[3]:
                if "distribution" in e.data[3]: ctx.fail("draws from %s instead of %s" % (e.data[3], fam), e.loc, fname)
                else: ctx.und("%s: drawn by %s" % (m, e.data[3]))
                continue
            v = None
            if isinstance(o, Ref) and o.pat.startswith("$this.") and C is not None: v = final(C, o.pat, o.ty)
            elif isinstance(o, Ref): v = I.read(o, TRUE)
            h, k = head(v) if v is not None else (None, ())
            if h is None or not h.startswith("new:") or len(k) == 1 or len(k) > 2: ctx.und("%s: parameters of the distribution" % m)
            else:
                defs = ("0", "1") if fam != "uniform_int_distribution" else None
                got = tuple(show(x) for x in k) or defs
                if got != par: ctx.fail("draws with parameters %s instead of %s" % (got, par), e.loc, fname)
                else: ctx.ok()
            if len(I.events) and I.ret is not None and show(I.ret).startswith("op()("): ctx.ok()
            elif isinstance(I.ret, Poly): ctx.fail("returns %s, not the number drawn" % show(I.ret)[:80], loc, fname)
            ctx.sample({"draw": fname, "parameters": n, "state": sorted(state)})
    # ---- setSeed
    def engine_seed(v):
        h, k = head(v)
        if h == "s:seed" and len(k) == 2: return k[1]
        if h is not None and h.startswith("new:") and "mersenne" in h and len(k) == 1: return k[0]
        if h in ("operator=", "s:operator=") and k: return engine_seed(k[-1])
        return None
    for f in ctx.prog.find(M_ + "setSeed", 1):
        I = ctx.summ(f); fname = M_ + "setSeed"; loc = "src/MersenneTwister.h"
        if I.undecided: ctx.und("setSeed: %s" % I.undecided[:2]); continue
        if I.finalpc is not TRUE: ctx.und("setSeed may not return")
        for p in sorted(state):
            ty = fty.get(p, "")
            for g, v in cases(final(I, p, ty), I.finalpc):
                if p == eng:
                    s = engine_seed(v)
                    if s is None:
                        if show(P(v)) == eng: ctx.fail("leaves the engine as it was" + cond(g), loc, fname)
                        elif any(show(P(v)).startswith(x) for x in ("s:discard",)): ctx.fail("does not reseed the engine last", loc, fname)
                        else: ctx.und("setSeed: engine becomes %s" % show(P(v))[:80])
                    elif show(s) != "$p:0": ctx.fail("seeds the engine with %s, not the given seed%s" % (show(s), cond(g)), loc, fname)
                    else: ctx.ok()
                    continue
                h, k = head(v)
                if any(x in ty for x in STATEFUL):
                    if h in ("s:reset",) or h is not None and h.startswith("new:"): ctx.ok()
                    elif h == "operator=" and head(k[-1])[0] and head(k[-1])[0].startswith("new:"): ctx.ok()
                    elif show(P(v)) == p: ctx.fail("leaves %s as it was%s, which holds back a number drawn before the reseeding" % (p[6:], cond(g)), loc, fname)
                    else: ctx.und("setSeed: %s becomes %s" % (p, show(P(v))[:60]))
                elif "uniform" in ty: ctx.ok()
                elif "$this." in show(v if isinstance(v, (Poly, Bdd)) else ZERO): ctx.fail("%s keeps a value from before the reseeding: %s" % (p[6:], show(v)[:60]), loc, fname)
                else: ctx.ok()
        if "$this.seed" in fty:
            for g, v in cases(final(I, "$this.seed", "unsigned int"), I.finalpc):
                if show(v) != "$p:0": ctx.fail("reports %s as the seed%s" % (show(v), cond(g)), loc, fname)
                else: ctx.ok()
        else: ctx.und("no member named seed")
    # ---- constructor and getSeed
    if C is None: ctx.und("constructor")
    else:
        s = engine_seed(final(C, eng, fty[eng])); v = final(C, "$this.seed", "unsigned int")
        if s is None:
            if head(final(C, eng, fty[eng]))[0] is not None and not head(final(C, eng, fty[eng]))[1]: ctx.fail("leaves the engine with its default seed", "src/MersenneTwister.h", M_ + "MersenneTwister")
            else: ctx.und("constructor: engine is %s" % show(P(final(C, eng, fty[eng])))[:80])
        elif isinstance(v, Poly) and s is v: ctx.ok()
        else: ctx.fail("seeds the engine with %s but reports %s" % (show(s), show(v)), "src/MersenneTwister.h", M_ + "MersenneTwister")
    for f in ctx.prog.find(M_ + "getSeed", 0):
        I = ctx.summ(f)
        if isinstance(I.ret, Poly) and show(I.ret) == "$this.seed": ctx.ok()
        elif isinstance(I.ret, Poly): ctx.fail("returns %s" % show(I.ret)[:60], "src/MersenneTwister.h", M_ + "getSeed")
        for p in I.mem.d:
            if p.startswith("$this."): ctx.fail("changes %s" % p, "src/MersenneTwister.h", M_ + "getSeed")
def cond(g): return "" if g is TRUE else " when %s" % show(g)[:80]
RULES = {"C45": c45}
