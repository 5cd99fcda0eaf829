"""C05, C06: the fast-marching priority queue."""
from rules.util import *
NI = ("Heap::siftUp", "Heap::siftDown", "Heap::test")
CALLS = {"Heap::siftUp", "Heap::siftDown"}
def ni(f): return tuple(x for x in NI if x != f)
def c05(ctx):
    """value-flow equivalence of every heap operation with the reference heap (sift directions, comparison keys, back pointers), all storage at all indices"""
    ctx.load(["Heap"], ["heap"])
    ctx.equiv("Heap::Heap", "Heap_ctor", 2)
    for m, n in (("push", 2), ("pop", 2), ("siftDown", 2), ("siftUp", 1), ("set", 2), ("empty", 0), ("peek", 0), ("size", 0)):
        ctx.equiv("Heap::" + m, "Heap_" + m, n, noinline=ni("Heap::" + m), calls=CALLS, exits=False)
def c06(ctx):
    """guard analysis: the condition under which each operation completes, and the storage it leaves on the completing paths"""
    ctx.load(["Heap"], ["heap"])
    ctx.equiv("Heap::Heap", "Heap_ctor", 2, only=("$this.maxLength", "$this.heapLength", "$this.listLength", "$this.distance.$size", "$this.heap.$size", "$this.address.$size", "$this.backPointer.$size"))
    for m, n in (("push", 2), ("pop", 2), ("peek", 0)):
        ctx.equiv("Heap::" + m, "Heap_" + m, n, noinline=NI, calls=False, only=("$this.heapLength", "$this.listLength", "$this.maxLength", "$this.distance.$size", "$this.heap.$size", "$this.address.$size", "$this.backPointer.$size"))
def c54(ctx):
    """guard analysis: the condition under which the self-test lets each slot pass equals the reference condition, loop by loop"""
    ctx.load(["Heap"], ["heap"])
    # the same condition cut into loops in different ways
    keep = None
    for s in ("Heap_test", "Heap_test_up", "Heap_test_half", "Heap_test_one"):
        f0, u0, n0, d0 = list(ctx.fails), list(ctx.unds), ctx.nobl, ctx.ndis
        ctx.equiv("Heap::test", s, 0)
        if len(ctx.fails) == len(f0) and len(ctx.unds) == len(u0): keep = None; break
        if keep is None or len(keep[0]) == len(f0) and len(ctx.fails) > len(f0): keep = list(ctx.fails), list(ctx.unds)
        ctx.fails[:] = f0; ctx.unds[:] = u0; ctx.nobl, ctx.ndis = n0, d0
    if keep: ctx.fails[:], ctx.unds[:] = keep
    # whatever the shape: both relations are looked at
    try: I = ctx.summ(ctx.prog.one("Heap::test", 0))
    except Exception as e: ctx.und(e); return
    ex = " ".join(show(e.pc) for e in I.events if e.kind == "exit")
    for m, what in (("distance", "keys"), ("backPointer", "back pointers")):
        if I.undecided: continue
        if "this." + m + "[" not in ex: ctx.fail("never fails because of the %s of the entries" % what, I.loc(I.fn) if hasattr(I, "fn") else "src/Heap.cpp", "Heap::test")
        else: ctx.ok()
RULES = {"C05": c05, "C06": c06, "C54": c54}
