"""C13-C25: the level set."""
from rules.util import *
L = "LevelSet::"
INI = (L + "initialise", L + "reinitialise", L + "initialiseNarrowBand")
FM = ("FastMarchingMethod::march", "FastMarchingMethod::FastMarchingMethod")
from rules.r_fmm import STAGES, NI
DEEP = FM + STAGES + NI + (L + "initialise", L + "initialiseNarrowBand", L + "reinitialise", L + "computeGradient", L + "initialiseVelocities", L + "isInsidePolygon", L + "pointToLineDistance", L + "cutArea", L + "polygonArea", L + "closestDomainBoundary", L + "gradHJWENO")
def load(ctx): ctx.load(["LevelSet", "FastMarchingMethod", "Heap", "Mesh", "Boundary", "Hole"], ["levelset"])
def eq(ctx, m, spec, n=None, noinline=(), **kw): ctx.equiv(L + m, "LS_" + spec, n, noinline=tuple(x for x in tuple(noinline) + DEEP if x != L + m or x in noinline), **kw)
def c13(ctx):
    """Value-flow equivalence of the six constructors with the reference: every member, the allocated sizes, the mesh built, the initialisation call made and its arguments, and the validation exits."""
    load(ctx)
    for s, n, t in (("ctorDefault", 5, None), ("ctorHoles", 6, "Hole"), ("ctorPoints", 6, "Coord"), ("ctorHolesHoles", 7, "Hole,Hole"), ("ctorHolesPoints", 7, "Hole,Coord"), ("ctorPointsPoints", 7, "Coord,Coord")):
        types = None
        if t: types = ["unsigned int", "unsigned int"] + ["std::vector<%s>" % x for x in t.split(",")]
        eq(ctx, "LevelSet", s, n, types=types, noinline=INI + ("Mesh::Mesh",))
def c14(ctx):
    """Value-flow equivalence of initialiseNarrowBand: band list, counts, mine list and per-node activity, mine and mask flags of an arbitrary node equal the reference for an arbitrary earlier state."""
    load(ctx); eq(ctx, "initialiseNarrowBand", "initialiseNarrowBand", 0)
def c15(ctx):
    """Value-flow equivalence of update: the field at an arbitrary node, the reinitialisation calls and their guards and the returned flag equal the reference."""
    load(ctx); eq(ctx, "update", "update", 1, noinline=INI)
def c16(ctx):
    """Value-flow equivalence of update and reinitialise: the mine test per band node, the condition for reinitialising and the march/band sequence equal the reference."""
    load(ctx); eq(ctx, "update", "update", 1, noinline=INI); eq(ctx, "reinitialise", "reinitialise", 0, noinline=FM + (L + "initialiseNarrowBand",))
def c17(ctx):
    """Value-flow equivalence of both mask overloads with the reference: which nodes are masked, target and field effects, and the rebuild that follows."""
    load(ctx)
    eq(ctx, "mask", "maskHoles", 1, types=["std::vector<Hole>"], noinline=INI); eq(ctx, "mask", "maskPoints", 1, types=["std::vector<Coord>"], noinline=INI + (L + "isInsidePolygon",))
def c18(ctx):
    """Value-flow equivalence of computeGradient for every node position, velocity sign and neighbour stencil on grids at least four elements wide and high (stencil index selection per distance to the domain edge)."""
    load(ctx)
    x, y = (T.trunc_(loc_("$this.mesh.nodes[*].coord." + c, "double", (param(0),))) for c in "xy")
    w, h = loc_("$this.mesh.width"), loc_("$this.mesh.height")
    A = TRUE
    for a, n in ((x, w), (y, h)):
        for c in (ge(a, ZERO), ge(n, a), ge(n, num(4))): A = b_and(A, c)
    eq(ctx, "computeGradient", "computeGradient", 1, noinline=(L + "gradHJWENO",), assume=A)
def c19(ctx):
    """Value-flow equivalence of gradHJWENO (smoothness, weights, epsilon) and computeGradients (zero off the band) with the reference."""
    load(ctx); eq(ctx, "gradHJWENO", "gradHJWENO", 5); eq(ctx, "computeGradients", "computeGradients", 0, noinline=(L + "computeGradient",))
def c20(ctx):
    """Value-flow equivalence of initialiseVelocities and computeVelocities: inverse-square weighting, coincident override, reset and the extension march."""
    load(ctx); eq(ctx, "initialiseVelocities", "initialiseVelocities", 1, noinline=("Mesh::getClosestNode",), unroll=0); eq(ctx, "computeVelocities", "computeVelocities", 1, noinline=FM + (L + "initialiseVelocities",))
def c21(ctx):
    """Value-flow equivalence of the stochastic computeVelocities: noise amplitude, limits, arguments of the deterministic part and the returned time step equal the reference."""
    load(ctx); eq(ctx, "computeVelocities", "computeVelocitiesNoise", 4, types=["std::vector<BoundaryPoint>", "double"], noinline=(L + "computeVelocities", "MersenneTwister::normal"))
def c22(ctx):
    """Value-flow equivalence of computeAreaFractions and cutArea: per-element area by status, total area, vertex list built for a cut element."""
    load(ctx); eq(ctx, "computeAreaFractions", "computeAreaFractions", 1, noinline=(L + "cutArea",)); eq(ctx, "cutArea", "cutArea", 2, noinline=(L + "polygonArea",))
def c23(ctx):
    """Value-flow equivalence of cutArea, the vertex ordering predicate and the shoelace sum with the reference; the ordering is a strict weak order by construction of the reference."""
    load(ctx); eq(ctx, "cutArea", "cutArea", 2, noinline=(L + "polygonArea",)); eq(ctx, "isClockwise", "isClockwise", 3); eq(ctx, "polygonArea", "polygonArea", 3)
def shapes(ctx):
    for n, sp in ((0, "holeDefault"), (3, "holeNumbers"), (2, "holeCoord")): ctx.equiv("Hole::Hole", "LS_" + sp, n)
    for n, sp in ((0, "coordDefault"), (2, "coordNumbers")): ctx.equiv("Coord::Coord", "LS_" + sp, n)
def c24(ctx):
    """Value-flow equivalence of the three initialisers and their distance helpers with the reference for an arbitrary node, and of the constructors of the shapes they take (holes, coordinates)."""
    load(ctx)
    eq(ctx, "initialise", "initialiseCheese", 0, noinline=(L + "initialise",)); CD = (L + "closestDomainBoundary", L + "pointToLineDistance", L + "isInsidePolygon")
    eq(ctx, "initialise", "initialiseHoles", 1, types=["std::vector<Hole>"], noinline=CD); eq(ctx, "initialise", "initialisePoints", 1, types=["std::vector<Coord>"], noinline=CD)
    eq(ctx, "closestDomainBoundary", "closestDomainBoundary", 0); eq(ctx, "pointToLineDistance", "pointToLineDistance", 3); shapes(ctx)
def c25(ctx):
    """Value-flow equivalence of isInsidePolygon (edge crossings, sides, empty and degenerate polygons) with the reference winding number."""
    load(ctx); eq(ctx, "isInsidePolygon", "isInsidePolygon", 2)
RULES = {"C%d" % i: globals()["c%d" % i] for i in range(13, 26)}
