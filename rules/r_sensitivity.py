"""C35-C36: finite-difference sensitivities and the thermal correction."""
from rules.util import *
S = "Sensitivity::"
def load(ctx): ctx.load(["Sensitivity", "Boundary", "LevelSet", "Mesh"], ["sensitivity"])
def c35(ctx):
    """Value-flow equivalence of computeSensitivity with the reference central difference: the point handed to both callback calls, the quotient, and the restored coordinates. Exactness of the restoration is decided by a second summary in which floating-point operations are uninterpreted (x + d - d is not x): on return each coordinate must be the very value it had on entry, by copies alone."""
    load(ctx); ctx.equiv(S + "Sensitivity", "S_ctor", 1); ctx.equiv(S + "computeSensitivity", "S_computeSensitivity", 2)
    try:
        f = ctx.fn(S + "computeSensitivity", 2); I = ctx.summ(f, opts={"fp_opaque": True})
    except AnalysisBroken as e: ctx.und(e); return
    for c in ("x", "y"):
        pat = "$p:0.coord." + c
        v = I.read(Ref(pat, (), "double"), I.finalpc)
        if isinstance(v, Poly): v = under(v, I.finalpc)
        if v is P(loc_(pat, "double")): ctx.ok()
        elif "fp" in show(v): ctx.fail("the point's coordinate %s is not restored exactly: on return it is %s" % (c, show(v)[:200]), I.finalloc if hasattr(I, "finalloc") else "src/Sensitivity.cpp", S + "computeSensitivity")
        else: ctx.und("coordinate %s on return: %s" % (c, show(v)[:100]))
def c36(ctx):
    """Value-flow equivalence of both itoCorrection forms with the reference: early return, callback used, only the objective sensitivity changed."""
    load(ctx); ctx.equiv(S + "itoCorrection", "S_itoCorrectionNormals", 3, noinline=("Boundary::computeNormalVectors", S + "itoCorrection"))
    ctx.equiv(S + "itoCorrection", "S_itoCorrection", 2, noinline=("Boundary::computePerimeter",))
RULES = {"C35": c35, "C36": c36}
