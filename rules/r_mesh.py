"""C01-C04: mesh numbering, connectivity and point lookup."""
from terms import *
from interp import *
from rules.util import *
GRID = b_and(ge(param(0), ONE), ge(param(1), ONE))
EQ = "value-flow equivalence: the storage written by the function (all loops summarised symbolically, every node/element index at once) must equal the reference in every feasible case"
def _mesh(ctx, only):
    ctx.load(["Mesh"], ["mesh"])
    ctx.equiv("Mesh::Mesh", "Mesh_ctor", 2, only=only, assume=GRID)
    ctx.assumptions += ["grid width and height are at least one", "unsigned arithmetic does not wrap for the grid sizes in use"]
def c01(ctx):
    _mesh(ctx, ("$this.width", "$this.height", "$this.nNodes", "$this.nElements", "$this.xyToIndex", "$this.nodes[*].coord", "$this.nodes[*].isDomain", "$this.nodes.$size", "$this.nodes[*].isMasked", "$this.nodes[*].isActive", "$this.nodes[*].isMine", "$this.nodes[*].nBoundaryPoints"))
def c02(ctx): _mesh(ctx, ("$this.nodes[*].neighbours", "$this.nNodes"))
def c03(ctx): _mesh(ctx, ("$this.elements", "$this.nElements", "$this.nodes[*].elements", "$this.nodes[*].nElements"))
def c04(ctx):
    ctx.load(["Mesh"], ["mesh"])
    ctx.equiv("Mesh::getElement", "Mesh_getElement", 2)
    ctx.equiv("Mesh::getElement", "Mesh_getElementCoord", 1)
    ctx.equiv("Mesh::getClosestNode", "Mesh_getClosestNode", 2)
    ctx.equiv("Mesh::getClosestNode", "Mesh_getClosestNodeCoord", 1)
for f in (c01, c02, c03, c04): f.__doc__ = EQ
RULES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
