"""C26-C34: the discretised boundary."""
from rules.util import *
B = "Boundary::"
PARTS = (B + "isAdded", B + "initialisePoint", B + "segmentLength", B + "computeMeshStatus", B + "computePointLengths", "Mesh::getClosestNode")
def load(ctx): ctx.load(["Boundary", "Mesh", "LevelSet"], ["boundary"])
def eq(ctx, m, spec=None, n=None, noinline=(), **kw): ctx.equiv(B + m, "B_" + (spec or m), n, noinline=tuple(x for x in PARTS if x != B + m) + tuple(noinline), unroll=0, **kw)
def size(ctx, cls, member):
    """constant size a default-constructed vector member gets, None if not a constant"""
    f = ctx.prog.find(cls + "::" + cls, 0)
    if not f: return None
    I = ctx.summ(f[0]); v = I.read(Ref("$this.%s.$size" % member, (), "unsigned long"), pc=TRUE)
    c = v.const() if isinstance(v, Poly) else None
    return int(c) if c is not None else None
def c26(ctx):
    """Value-flow equivalence of computeMeshStatus: the status of an arbitrary node and element after the call, for both fields and every earlier state, equals the reference classification."""
    load(ctx); eq(ctx, "computeMeshStatus", n=2)
def c27(ctx):
    """Value-flow equivalence of discretise (one arbitrary element in an arbitrary intermediate state: every point and segment stored, every count, the total length and the element's list) and of segmentLength with the reference."""
    load(ctx); eq(ctx, "discretise", n=2); eq(ctx, "segmentLength", n=1)
def c28(ctx):
    """Value-flow equivalence of isAdded (location on the edge, search among the registered points) and of discretise (interpolation argument, edge number, registration with both nodes of a cut edge or the node itself) with the reference."""
    load(ctx); eq(ctx, "isAdded", n=5); eq(ctx, "discretise", n=2); ctx.equiv("BoundaryPoint::BoundaryPoint", "B_pointCtor", 0, only=("$this.coord",))
def c29(ctx):
    """The state in which the element loop of discretise starts (point and segment lists, counts, length, chosen field, per-node and per-element registrations) equals the reference for an arbitrary earlier state."""
    load(ctx); eq(ctx, "computeMeshStatus", n=2); eq(ctx, "discretise", n=2)
def c30(ctx):
    """Value-flow equivalence of initialisePoint with the reference limits and flags for every position, move limit and mask; the constructor leaves both flags clear; discretise initialises every point it adds."""
    load(ctx); eq(ctx, "initialisePoint", n=3); ctx.equiv("BoundaryPoint::BoundaryPoint", "B_pointCtor", 0, only=("$this.isDomain", "$this.isFixed", "$this.negativeLimit", "$this.positiveLimit"))
    eq(ctx, "discretise", n=2, only=("$this.points",))
def c31(ctx):
    """Value-flow equivalence of computePointLengths (an arbitrary segment in an arbitrary intermediate state) and computePerimeter with the reference; points start with no segments, no neighbours and zero length."""
    load(ctx); eq(ctx, "computePointLengths", n=0); eq(ctx, "computePerimeter", n=1)
    ctx.equiv("BoundaryPoint::BoundaryPoint", "B_pointCtor", 0, only=("$this.length", "$this.nSegments", "$this.nNeighbours"))
def c32(ctx):
    """Value-flow equivalence of computeNormalVectors with the reference: stencil selection at the domain edges, coincident-node override, weights, clearing of the accumulators and normalisation."""
    load(ctx); eq(ctx, "computeNormalVectors", n=1)
def c33(ctx):
    """Value-flow equivalence of discretise with a reference in which the pairing of the four cuts and the recorded centre side are both derived from the same centre-side decision."""
    load(ctx); eq(ctx, "discretise", n=2)
def c34(ctx):
    """Table capacities fixed by the constructors against the most entries the reference discretisation can store (4 edges per node, 4 segments per element, growth test before each per-point store), plus equivalence of the storing code with that reference, including that no segment is built from fewer than two determined ends."""
    load(ctx)
    for cls, m, need, why in (("Node", "boundaryPoints", 4, "a node has four edges"), ("Element", "boundarySegments", 4, "an element has a segment on each edge when all corners lie on the boundary"),
                              ("Node", "elements", 4, "a node belongs to four elements"), ("Node", "neighbours", 4, "a node has four neighbours"), ("Element", "nodes", 4, "an element has four corners")):
        n = size(ctx, cls, m)
        if n is None: ctx.und("capacity of %s::%s is not a constant" % (cls, m))
        elif n < need: ctx.fail("%s::%s holds %d entries but %s" % (cls, m, n, why), "Mesh.cpp", cls)
        else: ctx.ok()
    a, b = size(ctx, "BoundaryPoint", "segments"), size(ctx, "BoundaryPoint", "neighbours")
    if a is None or b is None: ctx.und("capacity of BoundaryPoint tables is not a constant")
    elif a > b: ctx.fail("BoundaryPoint::neighbours (%d entries) is smaller than BoundaryPoint::segments (%d), which is the table tested before both grow" % (b, a), "Boundary.cpp", "BoundaryPoint")
    else: ctx.ok()
    eq(ctx, "discretise", n=2); eq(ctx, "computePointLengths", n=0)
RULES = {"C%d" % i: globals()["c%d" % i] for i in range(26, 35)}
