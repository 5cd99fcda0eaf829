"""C07-C12: fast marching."""
from rules.util import *
F = "FastMarchingMethod::"
NI = ("Heap::push", "Heap::pop", "Heap::set", "Heap::empty", "Heap::peek", "Heap::size", F + "updateNode", F + "finaliseVelocity", F + "solveQuadratic")
STAGES = (F + "initialiseFrozen", F + "initialiseHeap", F + "initialiseTrial", F + "solve")
def eq(ctx, m, n=0, **kw):
    ctx.equiv(F + m, "FMM_" + m, n, noinline=tuple(x for x in NI if x != F + m), unroll=(1 if m in ("solve", "initialiseTrial") else 9), **kw)
def load(ctx): ctx.load(["FastMarchingMethod", "Heap", "Mesh"], ["fmm"])
def c07(ctx):
    """Gated value flow of every status change: initialiseFrozen, initialiseTrial and solve are summarised for an arbitrary node and march state, and status writes, queue insertions/removals (with their path conditions) and distance writes must equal the reference far/trial/frozen automaton in every feasible case."""
    load(ctx)
    eq(ctx, "initialiseFrozen", only=("$this.nodeStatus",)); eq(ctx, "initialiseTrial"); eq(ctx, "solve")
def c08(ctx):
    """Gated value flow of queue operations: every push/set/pop in initialiseTrial and solve must occur under the reference condition, with the node's own handle and the absolute value of the distance just stored; the queue capacity must cover all far nodes."""
    load(ctx)
    eq(ctx, "initialiseTrial"); eq(ctx, "solve"); eq(ctx, "initialiseHeap")
def c09(ctx):
    """Value-flow equivalence of updateNode and solveQuadratic with the reference upwind quadratic for every combination of neighbour existence, status and distance ordering."""
    load(ctx)
    eq(ctx, "updateNode", 1); eq(ctx, "solveQuadratic", 4)
def c10(ctx):
    """Value-flow equivalence of initialiseFrozen: the stored distance and status of an arbitrary node as a function of the unmodified input field must equal the reference interpolation."""
    load(ctx); eq(ctx, "initialiseFrozen")
def c11(ctx):
    """Value-flow equivalence of the velocity march: distances restored on completion, velocity written only for nodes taken off the queue (which holds active nodes only), with the reference weighted average."""
    load(ctx)
    ctx.equiv(F + "march", "FMM_marchVelocity", 2, noinline=STAGES + NI)
    eq(ctx, "finaliseVelocity", 1); eq(ctx, "initialiseTrial"); eq(ctx, "solve", only=("$this.velocity", "$p", "$this.nodeStatus"))
def c12(ctx):
    """March-state effects: the march entry points, initialiseFrozen (status reset) and the constructor must equal the reference; along march the heap replaced is the heap deleted, the destructor deletes the last one, and no copy of an owning object is possible."""
    load(ctx)
    ctx.equiv(F + "march", "FMM_march", 1, noinline=STAGES + NI)
    ctx.equiv(F + "march", "FMM_marchVelocity", 2, noinline=STAGES + NI)
    ctx.equiv(F + "FastMarchingMethod", "FMM_ctor", 2, only=("$this.isTest", "$this.outOfBounds", "$this.heap", "$this.heapPtr", "$this.nodeStatus", "$this.signedDistanceCopy", "$this.mesh"))
    eq(ctx, "initialiseFrozen", only=("$this.nodeStatus", "$this.signedDistanceCopy")); eq(ctx, "initialiseHeap")
    owning(ctx, ("FastMarchingMethod",))
def copies(node, c, kind):
    out = []
    for n in node.get("inner", ()):
        if n.get("kind") != kind or kind == "CXXMethodDecl" and n.get("name") != "operator=": continue
        ps = [x for x in n.get("inner", ()) if x.get("kind") == "ParmVarDecl"]
        t = ps[0]["type"]["qualType"].replace("slsm::", "") if len(ps) == 1 else ""
        if t.replace(" ", "") in ("const%s&" % c, "%s&" % c, c): out.append(n)
    return out
def owning(ctx, classes):
    """raw owning pointers: every new stored in a member needs a delete of the old value before and in the destructor, and no implicit copies"""
    for c in classes:
        r = ctx.prog.records.get(c)
        if r is None: continue
        ptrs = [nm for nm, t, node in r["fields"] if t.endswith("*")]
        owned = {}
        for f in ctx.prog.funcs.values():
            if f.get("_cls") != c: continue
            I = ctx.summ(f, noinline=STAGES + NI if f["_qual"] not in STAGES else NI + tuple(x for x in STAGES if x != f["_qual"]), unroll=1)
            for e in I.events:
                if e.kind == "delete" and f["kind"] != "CXXDestructorDecl":
                    for nm in ptrs:
                        v = I.mem.d.get("$this." + nm)
                        if isinstance(e.data, Ptr) and (repr(v) == repr(e.data) or v is None and repr(e.data) == "&$this.%s->" % nm) and b_and(e.pc, I.finalpc) is not FALSE:
                            ctx.fail("leaves %s pointing to the memory it released, which is released again later" % nm, e.loc, f["_qual"])
                if e.kind != "new": continue
                for nm in ptrs:
                    v = I.mem.d.get("$this." + nm)
                    if isinstance(v, Ptr) and repr(v.ref) == repr(e.data[1]): owned.setdefault(nm, []).append((f, e, I))
        for nm, l in owned.items():
            dels = [f for f in ctx.prog.funcs.values() if f.get("_cls") == c and f["kind"] == "CXXDestructorDecl"]
            ok = any(any(e.kind == "delete" for e in ctx.summ(f).events) for f in dels)
            if not ok: ctx.fail("memory held by %s::%s is never released" % (c, nm), l[0][1].loc, c)
            else: ctx.ok()
            for what, nodes in (("copy construction", copies(r["node"], c, "CXXConstructorDecl")), ("copy assignment", copies(r["node"], c, "CXXMethodDecl"))):
                if what == "copy assignment" and any(t.endswith("&") or t.startswith("const ") for x, t, node in r["fields"]): ctx.ok(); continue      # not assignable
                if any(n.get("explicitlyDeleted") or not n.get("explicitlyDefaulted") and not n.get("isImplicit") for n in nodes) or r["node"].get("bases"): ctx.ok()
                else: ctx.fail("%s of %s duplicates the owning pointer %s, so that both objects release it" % (what, c, nm), "FastMarchingMethod.h", c)
            for f, e, I in l:
                if f["kind"] == "CXXConstructorDecl": ctx.ok(); continue
                prior = [d for d in I.events if d.kind == "delete" and d.n < e.n and ("$this." + nm) in repr(d.data)]
                g = FALSE
                for d in prior: g = b_or(g, d.pc)
                if b_and(e.pc, b_not(g)) is not FALSE: ctx.fail("%s is replaced without releasing the previous one" % nm, e.loc, f["_qual"])
                else: ctx.ok()
RULES = {"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12}
