"""C37-C40: the optimiser around NLopt."""
from rules.util import *
O = "Optimise::"
NI = tuple(O + m for m in ("computeScaleFactors", "computeConstraintDistances", "computeLambdaLimits", "computeDisplacements", "computeFunction", "computeGradients", "rescaleDisplacements"))
def ni(m): return tuple(x for x in NI if x != O + m)
def load(ctx): ctx.load(["Optimise"], ["optimise"])
def eq(ctx, m, n, **k): ctx.equiv(O + m, "O_" + m, n, noinline=ni(m) if m != "computeConstraintDistances" else NI, **k)
def c37(ctx):
    """Value-flow equivalence of every routine that sums or maximises over boundary points with a reference that skips fixed points."""
    load(ctx)
    for m, n in (("computeScaleFactors", 0), ("computeLambdaLimits", 0), ("computeDisplacements", 1), ("computeFunction", 1), ("computeGradients", 2), ("rescaleDisplacements", 0), ("computeConstraintDistances", 1)): eq(ctx, m, n)
    eq(ctx, "solve", 0, only=("$this.displacements", "$this.boundaryPoints"))
def c38(ctx):
    """Value-flow equivalence of displacement computation, step rescaling, the NLopt callback and the velocity assignment of solve with the reference."""
    load(ctx)
    for m, n in (("computeDisplacements", 1), ("rescaleDisplacements", 0), ("callback", 3)): eq(ctx, m, n)
    eq(ctx, "solve", 0)
def c39(ctx):
    """Value-flow equivalence of constraint removal and of solve's final remapping with the reference, all per-constraint storage at all indices and all sizes."""
    load(ctx)
    for m, n in (("computeConstraintDistances", 1), ("solve", 0), ("computeFunction", 1), ("computeGradients", 2)): eq(ctx, m, n)
def c40(ctx):
    """Guard analysis and value-flow equivalence of each constructor (plain and Python build) with the reference constructor."""
    load(ctx); ctx.equiv(O + "Optimise", "O_ctor", 8)
    ctx.load(["Optimise"], ["optimise"], flags=("-DPYBIND",))
    ctx.equiv(O + "Optimise", "O_ctor", 8); ctx.equiv(O + "Optimise", "O_ctorPy", 7)
    bindings(ctx, (O + "Optimise", 8), {"boundaryPoints": "$p:0", "lambdas": "$p:2", "timeStep": "$p:3"})
    bindings(ctx, (O + "Optimise", 7), {"boundaryPoints": "$p:0", "lambdas": "$p:2", "timeStep": "$p:3.value"})
RULES = {"C37": c37, "C38": c38, "C39": c39, "C40": c40}
