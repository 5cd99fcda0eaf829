import terms as T
from terms import *
import interp as IN
from interp import *
def loc_(pat, ty="unsigned int", idx=()):
    """initial value of a storage pattern"""
    IN.PT.setdefault(pat, ty)
    return T.mk_atom("rd", (pat, "", tuple(idx)), IN.is_int_type(ty))
def param(i, ty="unsigned int"): return loc_("$p:%d" % i, ty)

def bindings(ctx, f, want):
    """every reference member is bound, in the constructor, to the given object"""
    try: I = ctx.summ(ctx.fn(*f))
    except Exception as e: ctx.und("%s: %s" % (f, e)); return
    got = {e.data[0].pat: e.data[1] for e in I.events if e.kind == "bind" and isinstance(e.data[0], Ref)}
    for m, w in want.items():
        v = got.get("$this." + m)
        if v is None: ctx.und("%s: reference member %s not seen" % (f[0], m))
        elif not isinstance(v, Ref) or v.pat != w: ctx.fail("reference member %s is bound to %s instead of %s" % (m, v, w), I.fnloc if hasattr(I, "fnloc") else f[0], f[0])
        else: ctx.ok()
