"""Gated value-flow abstract interpreter over the type-checked AST.

Every function is walked once per (inlined) call context; nothing is executed and no
path is enumerated: control flow is turned into guards (conditions under which a write,
read, call, or exit happens), values become terms over the state at function entry, and
loops become records of one generic iteration (start-of-iteration symbols φ, end-of-loop
symbols ω, closed forms for induction variables, pointwise maps resolved exactly)."""
import sys
from terms import *
import terms as T
from front import *

PT = {}          # leaf pattern -> type
SYMTY = {}       # loop symbol name -> type
UNROLL = 9
MAXIT = 12

class Ref:
    __slots__ = ("pat", "idx", "ty")
    def __init__(s, pat, idx=(), ty=""): s.pat = pat; s.idx = idx; s.ty = ty
    def field(s, f, ty): return Ref(s.pat + "." + f, s.idx, ty)
    def at(s, i, ty): return Ref(s.pat + "[*]", s.idx + (i,), ty)
    def __repr__(s):
        parts = s.pat.split("[*]"); r = parts[0]
        for i, q in zip(s.idx, parts[1:]): r += "[%s]%s" % (show(i), q)
        return r
class RefIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class Ptr:
    __slots__ = ("ref",)
    def __init__(s, ref): s.ref = ref
    def __repr__(s): return "&" + repr(s.ref)
class PtrIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class Iter:
    __slots__ = ("ref", "pos")
    def __init__(s, ref, pos): s.ref = ref; s.pos = pos
    def __repr__(s): return "%r+%s" % (s.ref, show(s.pos))
class Lam:
    __slots__ = ("node", "frame", "tu", "key", "bound")
    def __init__(s, node, frame, tu): s.node = node; s.frame = frame; s.tu = tu; s.key = None; s.bound = None
class Bind(Lam):
    """std::bind of a member function to an object: the object is treated as bound by reference"""
    __slots__ = ("fkey", "obj", "order")
class Unsupported(Exception): pass

# chain nodes -----------------------------------------------------------
class W:
    __slots__ = ("prev", "g", "idx", "val", "loc", "n")
    def __init__(s, prev, g, idx, val, loc, n): s.prev = prev; s.g = g; s.idx = idx; s.val = val; s.loc = loc; s.n = n
class V:
    __slots__ = ("prev", "g", "ver", "ks", "n")
    def __init__(s, prev, g, ver, ks, n): s.prev = prev; s.g = g; s.ver = ver; s.ks = ks; s.n = n
class F:
    """fill: all elements whose index starts with pre (and next index >= lo)"""
    __slots__ = ("prev", "g", "pre", "lo", "val", "loc", "n")
    def __init__(s, prev, g, pre, lo, val, loc, n): s.prev = prev; s.g = g; s.pre = pre; s.lo = lo; s.val = val; s.loc = loc; s.n = n
class C:
    """copy: elements under pre come from another array"""
    __slots__ = ("prev", "g", "pre", "spat", "schain", "sidx", "loc", "n")
    def __init__(s, prev, g, pre, spat, schain, sidx, loc, n): s.prev = prev; s.g = g; s.pre = pre; s.spat = spat; s.schain = schain; s.sidx = sidx; s.loc = loc; s.n = n
class M:
    """pointwise loop: every iteration writes only at indices that determine the iteration"""
    __slots__ = ("prev", "g", "rec", "inv", "items", "n")
    def __init__(s, prev, g, rec, inv, items, n): s.prev = prev; s.g = g; s.rec = rec; s.inv = inv; s.items = items; s.n = n

class Event:
    __slots__ = ("kind", "pc", "data", "loops", "loc", "stack", "n", "mem")
    def __repr__(s): return "<%s %s @%s>" % (s.kind, s.data, s.loc)
_small = {}
class LoopRec:
    def __init__(s): s.children = []; s.mod = {}; s.carried = {}; s.pointwise = set(); s.breaks = FALSE; s.rets = []; s.exits = FALSE
    def __repr__(s): return "<loop %s @%s>" % (s.name, s.loc)

def is_ref_type(t): return t.strip().endswith("&")
def elem_type(t):
    """element type of vector / array / pointer"""
    t = strip_ref(t)
    if t.startswith("std::vector<"):
        return t[len("std::vector<"):-1].strip()
    if t.startswith("std::array<"): return t[len("std::array<"):-1].rsplit(",", 1)[0].strip()
    m = re.match(r"^(.*?)\s*\[([^\]]*)\]((?:\[[^\]]*\])*)$", t)
    if m: return (m.group(1) + m.group(3)).strip()
    if t.endswith("*"): return t[:-1].strip()
    return None
def is_vec(t):
    t = strip_ref(t)
    return t.startswith("std::vector<") and t.endswith(">")
def is_arr(t): return bool(re.search(r"\[[^\]]*\]$", strip_ref(t))) or strip_ref(t).startswith("std::array<")
def is_int_type(t, prog=None): return t in INT_TYPES or (prog is not None and t in prog.enums)
def is_unsigned(t): return t.startswith("unsigned") or t in ("size_t", "size_type", "std::size_t") or t.endswith("size_type")

class Frame:
    def __init__(s, fid, fnode, parent=None):
        s.id = fid; s.fn = fnode; s.env = {}; s.ret = None; s.retpc = FALSE; s.parent = parent; s.thisref = None
        s.rettype = ret_type(fnode) if fnode else 'void'; s.retslot = None
        s.labels = {}; s.tu = fnode.get("_tu") if fnode else None; s.loops = 0
    def lookup(s, key):
        f = s
        while f is not None:
            r = f.env.get(key)
            if r is not None: return r
            f = f.parent
        return None

class LoopCtx:
    def __init__(s): s.brk = FALSE; s.cont = FALSE

class Mem:
    """pattern -> scalar value | chain"""
    __slots__ = ("d", "bases")
    def __init__(s, d=None, bases=()): s.d = d if d is not None else {}; s.bases = bases
    def copy(s): return Mem(dict(s.d), s.bases)

class AllBut:
    """every callee stays opaque except one"""
    def __init__(self, *x): self.x = x
    def __contains__(self, q): return q not in self.x
    def __sub__(self, o): return self
def all_targets(v):
    if isinstance(v, Ptr): return all_targets(v.ref)
    if isinstance(v, Ref): return [v]
    if isinstance(v, (RefIte, PtrIte)): return all_targets(v.a) + all_targets(v.b)
    return []
NARROW = {"short": 2, "unsigned short": 2, "char": 1, "signed char": 1, "unsigned char": 1}

class Interp:
    def __init__(self, prog, noinline=(), unroll=UNROLL, opts=None):
        self.prog = prog; self.noinline = set(noinline); self.opts = opts or {}
        self.fp_opaque = bool(self.opts.get("fp_opaque"))
        self.keep_uninit = bool(self.opts.get("keep_uninit"))
        self.mem = Mem(); self.pc = TRUE; self.frames = []; self.events = []; self.scouting = 0
        self.loopstack = []; self.clock = 0; self.ids = {}; self.occ = {}; self.declpc = {}
        self.writelog = None; self.loops = []; self.cur_children = self.loops
        self.modcache = {}; self.ctxs = []; self.undecided = []; self.steps = 0
        self.unroll = unroll; self.depth = 0; self.facts = None; self.curloc = None; self.nmarks = 0
        self.opaque = {}

    # ------------------------------------------------------------ utils
    def uid(self, *key):
        i = self.ids.get(key)
        if i is None: i = self.ids[key] = len(self.ids)
        return i
    def tick(self): self.clock += 1; return self.clock
    def kargs(self): return tuple(r.k for r in self.loopstack if r.k is not None)
    def snapshot(self):
        return (self.mem.copy(), self.pc, len(self.events), dict(self.occ), dict(self.declpc), len(self.undecided))
    def restore(self, s):
        self.mem = s[0].copy(); self.pc = s[1]; del self.events[s[2]:]; self.occ = dict(s[3]); self.declpc = dict(s[4]); del self.undecided[s[5]:]
    def loc(self, n):
        l = n.get("_loc") if n else None
        if l and l[0]:
            f = l[0]
            if f.startswith(REPO + "/"): f = f[len(REPO) + 1:]
            return "%s:%s" % (f, l[1])
        return self.curloc
    def event(self, kind, data, n=None, pc=None, mem=False):
        e = Event(); e.kind = kind; e.pc = self.pc if pc is None else pc; e.data = data
        e.loops = tuple(self.loopstack); e.loc = self.loc(n) if n is not None else self.curloc
        e.stack = tuple(f.fn.get("_qual", "?") if f.fn else "?" for f in self.frames); e.n = self.tick()
        e.mem = self.mem.copy() if mem else None
        self.events.append(e); return e
    def note(self, what, n=None):
        self.undecided.append((what, self.loc(n) if n else self.curloc))
    def leaf_sym(self, name, ty):
        """symbol of given type -> value"""
        SYMTY[name] = ty
        ks = self.kargs()
        if ty == "bool": return b_atom(atom("lp", name, ks))
        a = of_atom(atom("lp", name, ks, isint=is_int_type(ty, self.prog)))
        return self.enum_expand(a, ty)
    def enum_expand(self, p, ty):
        d = self.prog.enum_domain.get(ty)
        if not d: return p
        r = num(d[-1])
        for lo, hi in reversed(list(zip(d, d[1:]))): r = T.ite(T.lt(p, num(hi)), num(lo), r)
        return r
    def fresh(self, base, ty=""):
        k = (base,) + tuple(r.name for r in self.loopstack)
        n = self.occ[("f", k)] = self.occ.get(("f", k), -1) + 1
        name = base + ("#%d" % n if n else "")
        lp = "@".join(r.name for r in self.loopstack)
        if lp: name += "@" + lp
        return self.leaf_sym(name, ty)

    # ------------------------------------------------------------ memory
    def base_ver(self, pat):
        for pre, ver, ks in reversed(self.mem.bases):
            if pat == pre or pat.startswith(pre + ".") or pat.startswith(pre + "["): return ver, ks
        return "", ()
    def rd(self, pat, ver, idx, ks, ty):
        PT.setdefault(pat, ty)
        if pat[0] in "%n" and ver == "":
            if pat.endswith("$size"): return ZERO
            if pat[0] == "%" or pat[0] == "n":
                a = fn("uninit", pat, *idx)
                if ty == "bool": return b_atom(a.single())
                return a
        args = ("rd", pat, ver, idx) + ((ks,) if ks else ())
        if ty == "bool": return b_atom(atom(*args))
        a = of_atom(atom(*args, isint=is_int_type(ty, self.prog) or pat.endswith("$size")))
        return self.enum_expand(a, ty)
    def read(self, ref, pc=None):
        pc = self.pc if pc is None else pc
        if isinstance(ref, RefIte):
            a = self.read(ref.a, b_and(pc, ref.c)); b = self.read(ref.b, b_and(pc, b_not(ref.c)))
            return self.vite(ref.c, a, b)
        PT.setdefault(ref.pat, ref.ty)
        ch = self.mem.d.get(ref.pat)
        if not ref.idx:
            if ch is None: return self.init_scalar(ref)
            if isinstance(ch, (V,)): return self.rd(ref.pat, ch.ver, (), ch.ks, ref.ty)
            return under(ch, pc) if isinstance(ch, (Poly, Bdd)) else self.vunder(ch, pc)
        return self.read_chain(ref.pat, ch, ref.idx, pc, ref.ty)
    def init_scalar(self, ref):
        cf = self.prog.const_fields.get(ref.pat.rsplit(".", 1)[-1]) if ref.pat[0] in "$" and "." in ref.pat else None
        if cf is not None and cf[0] == ref.ty and self.frames:
            e = peel_casts(cf[1])
            v = self.coerce(self.ev(e) if True else None, ref.ty)
            if isinstance(v, (Poly, Bdd)) and not v.syms_() if isinstance(v, Bdd) else (isinstance(v, Poly) and v.const() is not None): return v
        v, ks = self.base_ver(ref.pat)
        if v == "" and ref.pat[0] == "$" and ref.pat.endswith(".$size"):
            c = self.counted(ref)
            if c is not None: return c
        if ref.ty.endswith("*") : return Ptr(Ref(ref.pat + "->" + v, ref.idx, ref.ty[:-1].strip()))
        return self.rd(ref.pat, v, ref.idx, ks, ref.ty)
    # class invariants established by the constructors and kept by every public operation (C01, C13, C27, C29 decide them)
    COUNTS = {("Mesh", "nodes"): "nNodes", ("Mesh", "elements"): "nElements", ("Boundary", "points"): "nPoints", ("Boundary", "segments"): "nSegments",
              ("LevelSet", "signedDistance"): "mesh.nNodes", ("LevelSet", "velocity"): "mesh.nNodes", ("LevelSet", "gradient"): "mesh.nNodes", ("LevelSet", "narrowBand"): "mesh.nNodes",
              ("FastMarchingMethod", "heapPtr"): "mesh.nNodes", ("FastMarchingMethod", "nodeStatus"): "mesh.nNodes", ("FastMarchingMethod", "signedDistanceCopy"): "mesh.nNodes"}
    def counted(self, ref):
        path = ref.pat.split("."); 
        if "[" in ref.pat or "->" in ref.pat or len(path) < 3: return None
        root = path[0]
        ty = self.rootty.get(root)
        for m in path[1:-2]:
            rec = self.prog.records.get(ty)
            if rec is None: return None
            ty = next((strip_ref(t) for n, t, _ in rec["fields"] if n == m), None)
        cn = self.COUNTS.get((ty, path[-2]))
        if cn is None: return None
        if root == "$this" and self.under_construction: return None
        base = ".".join(path[:-2])
        return self.rd(base + "." + cn, "", (), (), "unsigned int")
    def vunder(self, v, pc):
        if isinstance(v, PtrIte):
            c = b_restrict(v.c, pc)
            if c is TRUE: return self.vunder(v.a, pc)
            if c is FALSE: return self.vunder(v.b, pc)
            return PtrIte(c, self.vunder(v.a, pc), self.vunder(v.b, pc))
        return v
    def vite(self, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if isinstance(a, (Poly, Bdd)) and isinstance(b, (Poly, Bdd)):
            if isinstance(a, Bdd) != isinstance(b, Bdd):
                if self.is_uninit(a) and not self.keep_uninit: return b
                if self.is_uninit(b) and not self.keep_uninit: return a
            return T.ite(c, a, b)
        if a is None or self.is_uninit(a) and not self.keep_uninit: return b
        if b is None or self.is_uninit(b) and not self.keep_uninit: return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.pat == b.pat and a.idx == b.idx: return a
            if a.pat == b.pat and len(a.idx) == len(b.idx): return Ref(a.pat, tuple(T.ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.ty)
            return RefIte(c, a, b)
        if isinstance(a, (Ref, RefIte)) and isinstance(b, (Ref, RefIte)): return RefIte(c, a, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and repr(a.ref) == repr(b.ref): return Iter(a.ref, T.ite(c, a.pos, b.pos))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.ref, Ref) and isinstance(b.ref, Ref) and a.ref.pat == b.ref.pat:
            return Ptr(self.vite(c, a.ref, b.ref))
        return PtrIte(c, a, b)
    def is_uninit(self, v):
        if isinstance(v, Poly):
            s = v.single(); return s is not None and s.kind == "fn" and s.args[0] == "uninit"
        if isinstance(v, Bdd) and v.v is not None and v.hi is TRUE and v.lo is FALSE:
            cv = T.condvar(v.v); return cv.kind == "b" and cv.a.kind == "fn" and cv.a.args[0] == "uninit"
        return False
    def idx_eq(self, a, b, pc):
        c = TRUE
        for x, y in zip(a, b):
            if x is y: continue
            c = b_and(c, T.eq(x, y))
            if c is FALSE: return FALSE
        return b_restrict(c, pc)
    def read_chain(self, pat, ch, idx, pc, ty):
        """value of pat[idx] at chain ch under condition pc"""
        # collect (cond, value) newest first until certain
        acc = []; care = pc
        base = None; n = 0
        while True:
            if care is FALSE: base = None; break
            if ch is None:
                v, ks = self.base_ver(pat)
                if ty.endswith("*"): base = Ptr(Ref(pat + "->" + v, idx, ty[:-1].strip()))
                else: base = self.rd(pat, v, idx, ks, ty)
                break
            n += 1
            if isinstance(ch, W):
                c = self.idx_eq(idx, ch.idx, care)
                if c is not FALSE:
                    c = b_and(c, b_restrict(ch.g, care)); c = b_restrict(c, care)
                if c is TRUE: base = ch.val; break
                if c is not FALSE:
                    acc.append((c, ch.val)); care = b_and(care, b_not(c))
                ch = ch.prev
            elif isinstance(ch, V):
                c = b_restrict(ch.g, care)
                v = self.rd(pat, ch.ver, idx, ch.ks, ty)
                if ty.endswith("*"): v = Ptr(Ref(pat + "->" + ch.ver, idx, ty[:-1].strip()))
                if c is TRUE: base = v; break
                if c is not FALSE: acc.append((c, v)); care = b_and(care, b_not(c))
                ch = ch.prev
            elif isinstance(ch, (F, C)):
                c = b_restrict(ch.g, care)
                if ch.pre: c = b_and(c, self.idx_eq(idx[:len(ch.pre)], ch.pre, care))
                if isinstance(ch, F) and ch.lo is not None: c = b_and(c, T.ge(idx[len(ch.pre)], ch.lo))
                c = b_restrict(c, care)
                if c is FALSE: ch = ch.prev; continue
                if isinstance(ch, F): v = ch.val
                else: v = self.read_chain(ch.spat, ch.schain, ch.sidx + idx[len(ch.pre):], b_and(care, c), ty) if (ch.sidx + idx[len(ch.pre):]) else self.read(Ref(ch.spat, (), ty))
                if c is TRUE: base = v; break
                acc.append((c, v)); care = b_and(care, b_not(c)); ch = ch.prev
            elif isinstance(ch, M):
                st = self.visit_map(pat, ch, {}, b_restrict(ch.g, care), idx, care, acc, ty)
                if st is True: base = acc.pop()[1]; break
                care = st
                ch = ch.prev
            else: raise Unsupported("chain %r %s" % (type(ch), pat))
        if base is None:
            if not acc: return self.rd(pat, "dead", idx, (), ty)
            base = acc.pop()[1]
        for c, v in reversed(acc): base = self.vite(c, v, base)
        if isinstance(base, (Poly, Bdd)): base = under(base, pc)
        return base
    def visit_map(self, pat, m, sm, guard, idx, care, acc, ty):
        """resolve a read against the writes of a pointwise loop; returns True when certain, else the remaining care"""
        kv, ex = inverse(m.inv, idx, sm)
        sm2 = dict(sm); sm2[m.rec.katom] = kv
        drop = None
        if m.inv[0] == "md":
            A0 = m.inv[3]; A = T.subst(A0, sm) if sm else A0
            sm2[fn("mod", m.rec.k, A0, isint=True).single()] = idx[m.inv[1]]
            sm2[fn("idiv", m.rec.k, A0, isint=True).single()] = idx[m.inv[2]]
            N = m.rec.trip
            if N is not None:
                N = T.subst(N, sm) if sm else N
                B = polydiv(N, A)
                if B is not None:
                    drop = m.rec.cond; ex = b_and(ex, T.lt(idx[m.inv[2]], B))
        guard = b_and(guard, b_and(ex, T.ge(kv, ZERO)))
        guard = b_restrict(guard, care)
        if guard is FALSE: return care
        for w in reversed(m.items):
            if care is FALSE: return care
            wg = w.g if drop is None else b_restrict(w.g, drop)
            g = b_and(guard, b_restrict(T.subst(wg, sm2), care))
            if g is FALSE: continue
            if isinstance(w, M):
                st = self.visit_map(pat, w, sm2, g, idx, care, acc, ty)
                if st is True: return True
                care = st; continue
            widx = tuple(T.subst(x, sm2) for x in (w.idx if isinstance(w, W) else w.pre))
            c = self.idx_eq(idx[:len(widx)], widx, care)
            if c is FALSE: continue
            c = b_and(c, g)
            if isinstance(w, F) and w.lo is not None: c = b_and(c, T.ge(idx[len(w.pre)], T.subst(w.lo, sm2)))
            c = b_restrict(c, care)
            if c is FALSE: continue
            if isinstance(w, C):
                si = tuple(T.subst(x, sm2) for x in w.sidx) + idx[len(w.pre):]
                v = self.read_chain(w.spat, w.schain, si, b_and(care, c), ty) if si else self.read(Ref(w.spat, (), ty))
                if isinstance(v, (Poly, Bdd)): v = T.subst(v, sm2)
            else: v = self.vsubst(w.val, sm2)
            acc.append((c, v))
            if c is TRUE: return True
            care = b_and(care, b_not(c))
        return care
    def vsubst(self, v, sm):
        if isinstance(v, (Poly, Bdd)): return T.subst(v, sm)
        if isinstance(v, Ref): return Ref(v.pat, tuple(T.subst(x, sm) for x in v.idx), v.ty)
        if isinstance(v, Ptr): return Ptr(self.vsubst(v.ref, sm)) if v.ref is not None else v
        if isinstance(v, (RefIte, PtrIte)): return type(v)(T.subst(v.c, sm), self.vsubst(v.a, sm), self.vsubst(v.b, sm))
        return v
    def write(self, ref, val, n=None, pc=None):
        pc = self.pc if pc is None else pc
        if pc is FALSE: return
        if isinstance(ref, RefIte):
            self.write(ref.a, val, n, b_and(pc, ref.c)); self.write(ref.b, val, n, b_and(pc, b_not(ref.c))); return
        PT.setdefault(ref.pat, ref.ty)
        if self.writelog is not None: self.writelog.setdefault(ref.pat, ref.ty)
        if ref.ty == "bool" and isinstance(val, Poly): val = T.ne(val, ZERO)
        if ref.ty != "bool" and isinstance(val, Bdd): val = P(val)
        loc = self.loc(n) if n is not None else self.curloc
        if not ref.idx:
            old = self.mem.d.get(ref.pat)
            dp = self.declpc.get(ref.pat)
            if dp is not None and b_restrict(pc, dp) is TRUE: self.mem.d[ref.pat] = val
            elif pc is TRUE: self.mem.d[ref.pat] = val
            else:
                if old is None: old = self.init_scalar(ref)
                elif isinstance(old, V): old = self.rd(ref.pat, old.ver, (), old.ks, ref.ty)
                self.mem.d[ref.pat] = self.vite(pc, val, old)
            self.event("write", (ref, val), n, pc)
            return
        self.mem.d[ref.pat] = W(self.mem.d.get(ref.pat), pc, ref.idx, val, loc, self.tick())
        self.event("write", (ref, val), n, pc)
    def leaves(self, ty, depth=0):
        """[(suffix, leaf type)] of a type"""
        ty = strip_ref(ty) if depth == 0 else ty
        if depth > 8: return []
        if is_ref_type(ty): return [("", ty)]
        if is_vec(ty): return [(".$size", "unsigned long")] + [("[*]" + s, t) for s, t in self.leaves(elem_type(ty), depth + 1)]
        if is_arr(ty): return [("[*]" + s, t) for s, t in self.leaves(elem_type(ty), depth + 1)]
        r = self.prog.records.get(ty)
        if r is not None:
            out = []
            for f, t, _ in r["fields"]: out += [("." + f + s, x) for s, x in self.leaves(t, depth + 1)]
            return out
        return [("", ty)]
    def copy(self, dst, src, n=None, pc=None):
        """struct / vector copy"""
        pc = self.pc if pc is None else pc
        if isinstance(src, RefIte):
            self.copy(dst, src.a, n, b_and(pc, src.c)); self.copy(dst, src.b, n, b_and(pc, b_not(src.c))); return
        if isinstance(dst, RefIte):
            self.copy(dst.a, src, n, b_and(pc, dst.c)); self.copy(dst.b, src, n, b_and(pc, b_not(dst.c))); return
        if pc is FALSE or not isinstance(src, Ref): return
        todo = []
        for s, t in self.leaves(dst.ty):
            d = dst.pat + s; sp = src.pat + s
            if "[*]" in s:
                if is_ref_type(t): continue
                todo.append((d, sp, t, self.mem.d.get(sp)))
            else:
                if is_ref_type(t): continue
                todo.append((d, None, t, self.read(Ref(sp, src.idx, t), pc)))
        for d, sp, t, x in todo:
            if sp is None: self.write(Ref(d, dst.idx, t), x, n, pc)
            else:
                PT.setdefault(d, t); PT.setdefault(sp, t)
                if self.writelog is not None: self.writelog.setdefault(d, t)
                if x is None:
                    v, ks = self.base_ver(sp)
                    if v: x = V(None, TRUE, v, ks, self.tick())
                self.mem.d[d] = C(self.mem.d.get(d), pc, dst.idx, sp, x, src.idx, self.loc(n) if n else self.curloc, self.tick())
                self.event("copy", (Ref(d, dst.idx, t), Ref(sp, src.idx, t)), n, pc)
    def fill(self, pat, pre, lo, val, ty, n=None):
        PT.setdefault(pat, ty)
        if self.writelog is not None: self.writelog.setdefault(pat, ty)
        if ty == "bool" and isinstance(val, Poly): val = T.ne(val, ZERO)
        self.mem.d[pat] = F(self.mem.d.get(pat), self.pc, pre, lo, val, self.loc(n) if n else self.curloc, self.tick())
        self.event("fill", (Ref(pat, pre, ty), lo, val), n)
    def havoc(self, pat, ty, ver):
        ks = self.kargs()
        if self.writelog is not None: self.writelog.setdefault(pat, ty)
        PT.setdefault(pat, ty)
        if "[*]" in pat: self.mem.d[pat] = V(self.mem.d.get(pat), self.pc, ver, ks, self.tick())
        else: self.set_scalar(pat, ty, self.havoc_val(pat, ty, ver))
    def set_scalar(self, pat, ty, val):
        """guarded update of a scalar"""
        pc = self.pc; dp = self.declpc.get(pat)
        if pc is FALSE: return
        if pc is not TRUE and not (dp is not None and b_restrict(pc, dp) is TRUE):
            old = self.mem.d.get(pat)
            if old is None: old = self.init_scalar(Ref(pat, (), ty))
            elif isinstance(old, V): old = self.rd(pat, old.ver, (), old.ks, ty)
            val = self.vite(pc, val, old)
        self.mem.d[pat] = val
    def havoc_val(self, pat, ty, ver):
        if ty.endswith("*"): return Ptr(Ref(pat + "->" + ver, (), ty[:-1].strip()))
        return self.rd(pat, ver, (), self.kargs(), ty)

    # ------------------------------------------------------------ declarations of locals
    def declare(self, d, ty=None):
        f = self.frames[-1]
        nm = d.get("name") or "_"
        ty = ty or norm_type(d.get("type"))
        k = ("v", f.id, d.get("id"))
        i = self.uid(*k)
        dup = self.uid("n", f.id, nm, i)
        first = self.ids.setdefault(("first", f.id, nm), i)
        pat = "%" + f.id + "." + nm + ("" if first == i else "~%d" % i)
        r = Ref(pat, (), ty)
        f.env[(f.tu, d.get("id"))] = r
        return r
    def undef(self, ref):
        """start of a local's lifetime"""
        for s, t in self.leaves(ref.ty):
            p = ref.pat + s
            if "[*]" not in s: self.mem.d[p] = self.uninit_val(p, t); self.declpc[p] = self.pc
            else: self.mem.d.pop(p, None)
            if p.endswith("$size") and "[*]" not in s: self.mem.d[p] = ZERO
            PT.setdefault(p, t)
            if self.writelog is not None: self.writelog.pop(p, None); self.localdecl.add(p)
    def uninit_val(self, p, t):
        a = fn("uninit", p)
        if t == "bool": return b_atom(a.single())
        return a
    def temp(self, ty, n):
        f = self.frames[-1]
        r = Ref("%" + f.id + ".$t%d" % self.uid("t", f.id, id(n)), (), ty)
        self.undef(r)
        return r

    # ------------------------------------------------------------ entry points
    def summarise(self, fnode, this="$this", args=None, undef=False, pre=TRUE):
        """interpret one function from an arbitrary state"""
        fr = Frame(fnode.get("name", "f"), fnode)
        self.frames.append(fr)
        cls = fnode.get("_cls")
        fr.thisref = Ref(this, (), cls or "")
        self.entry = fnode
        for i, p in enumerate(params(fnode)):
            t = norm_type(p.get("type"))
            nm = p.get("name") or "arg%d" % i
            if args and nm in args: r = args[nm]
            elif is_ref_type(t): r = Ref("$p:%d" % i, (), strip_ref(t))
            else:
                r = Ref("$p:%d" % i, (), t)
            fr.env[(fr.tu, p.get("id"))] = r
            # also params of other redeclarations are not referenced from the body
        self.rootty = {"$this": cls}
        self.under_construction = undef or fnode.get("kind") == "CXXConstructorDecl"
        for r in list((args or {}).values()) + list(fr.env.values()):
            if isinstance(r, Ref): self.rootty.setdefault(r.pat, r.ty); self.rootty[r.pat] = self.rootty[r.pat] or r.ty
        if undef and args:
            for r in args.values():
                if r.pat == this: self.undef_object(r)
        if fnode.get("kind") == "CXXConstructorDecl":
            self.undef_object(fr.thisref)
            self.ctor_inits(fnode, fr.thisref, None)
        b = body(fnode)
        self.pc = b_and(self.pc, pre)
        self.statics(fnode)
        self.stmt(b)
        self.finalpc = b_or(self.pc, fr.retpc)
        self.ret = fr.ret
        self.frames.pop()
        self.pc = self.finalpc
        return self
    def undef_object(self, ref):
        for s, t in self.leaves(ref.ty):
            p = ref.pat + s
            if "[*]" in s:
                self.mem.d[p] = F(None, TRUE, (), None, self.uninit_val(p, t), None, 0)
            else:
                self.mem.d[p] = ZERO if s.endswith("$size") else self.uninit_val(p, t)
    def ctor_inits(self, fnode, this, n):
        rec = self.prog.records.get(this.ty)
        done = set()
        for c in fnode.get("inner", []):
            if c.get("kind") != "CXXCtorInitializer": continue
            ai = c.get("anyInit")
            e = (c.get("inner") or [None])[0]
            if ai is None or e is None:
                if e is not None: self.ev(e)
                continue
            ft = norm_type(ai.get("type"))
            if e.get("kind") == "CXXDefaultInitExpr":
                fe = None
                if rec:
                    for f, t, node in rec["fields"]:
                        if f == ai["name"]: fe = [x for x in node.get("inner", []) if isinstance(x, dict) and "Expr" in x.get("kind", "") or x.get("kind", "").endswith("Literal")]
                e = fe[-1] if fe else e
            fr = this.field(ai["name"], ft)
            if is_ref_type(ft):
                v = self.lv(e); self.mem.d[fr.pat] = v if isinstance(v, Ref) and not this.idx else v
                self.event("bind", (fr, v), e)
            else: self.init(fr, e)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get("kind")
        if self.pc is FALSE and not self.has_label(n): return
        m = getattr(self, "s_" + k, None)
        if m is not None:
            l = self.loc(n)
            if l: self.curloc = l
            return m(n)
        self.ev(n)
    def has_label(self, n):
        r = n.get("_hl")
        if r is None:
            r = n.get("kind") == "LabelStmt" or any(self.has_label(c) for c in n.get("inner", []) or [] if isinstance(c, dict))
            n["_hl"] = r
        return r
    def s_CompoundStmt(self, n):
        for c in n.get("inner", []): self.stmt(c)
    def s_NullStmt(self, n): pass
    def s_UsingDirectiveDecl(self, n): pass
    def s_AttributedStmt(self, n): self.stmt(n["inner"][-1])
    def s_CXXTryStmt(self, n):
        """a handler runs, on the state before the block, on an arbitrary condition per handled type"""
        self.event("try", None, n)
        pc0 = self.pc; go = pc0; hs = []
        for h in n["inner"][1:]:
            ty = strip_ref(norm_type(h["inner"][0].get("type"))) if h["inner"][0].get("kind") == "VarDecl" else "..."
            k = ("exc", ty) + tuple(r.name for r in self.loopstack); c = self.occ[k] = self.occ.get(k, -1) + 1
            e = b_atom(atom("lp", "exc:%s%s%s" % (ty.split("::")[-1], "#%d" % c if c else "", "".join("@" + r.name for r in self.loopstack)), self.kargs()))
            hs.append((b_and(go, e), h)); go = b_and(go, b_not(e))
        self.pc = go
        self.stmt(n["inner"][0]); out = self.pc
        for g, h in hs:
            if g is FALSE: continue
            self.pc = g
            if h["inner"][0].get("kind") == "VarDecl": self.declare(h["inner"][0], ty_of(h["inner"][0]))
            self.stmt(h["inner"][-1]); out = b_or(out, self.pc)
        self.pc = out
    def s_LabelStmt(self, n):
        f = self.frames[-1]
        self.pc = b_or(self.pc, f.labels.pop(n.get("declId"), FALSE))
        for c in n.get("inner", []): self.stmt(c)
    def ends_program(self, st):
        """does straight-line code reach a call of exit?"""
        for c in st:
            while c.get("kind") in ("LabelStmt", "ExprWithCleanups", "CompoundStmt") and c.get("inner"): c = c["inner"][-1]
            if c.get("kind") == "CallExpr":
                x = c["inner"][0]
                while x.get("kind") == "ImplicitCastExpr": x = x["inner"][0]
                if (x.get("referencedDecl") or {}).get("name") in ("exit", "abort", "_Exit", "quick_exit", "terminate"): return True
            elif c.get("kind") not in ("NullStmt", "BinaryOperator", "CXXOperatorCallExpr"): return False
        return False
    def s_GotoStmt(self, n):
        f = self.frames[-1]
        t = n.get("targetLabelDeclId")
        if self.loopstack:
            # a jump out of a loop to code that ends the program: that code runs here
            b = body(f.fn) if f.fn else None
            inner = [c for c in (b or {}).get("inner", []) or [] if isinstance(c, dict)]
            at = next((i for i, c in enumerate(inner) if c.get("kind") == "LabelStmt" and c.get("declId") == t), None)
            if at is not None and self.ends_program(inner[at:]):
                for c in (inner[at].get("inner") or []) + inner[at + 1:]:
                    if self.pc is FALSE: break
                    self.stmt(c)
                self.pc = FALSE
                return
        f.labels[t] = b_or(f.labels.get(t, FALSE), self.pc)
        self.pc = FALSE
    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d.get("kind") == "VarDecl": self.vardecl(d)
    def vardecl(self, d):
        ty = norm_type(d.get("type"))
        init = [c for c in d.get("inner", []) if isinstance(c, dict) and (c.get("kind", "").endswith("Expr") or c.get("kind", "").endswith("Literal") or c.get("kind") in ("ExprWithCleanups", "CXXConstructExpr", "CXXNewExpr", "ConditionalOperator", "BinaryOperator", "UnaryOperator"))]
        init = init[-1] if init and d.get("init") else None
        if d.get("storageClass") == "static" and not self.static_const(d, init):
            return                                                      # see statics()
        if is_ref_type(ty):
            v = self.lv(init)
            self.frames[-1].env[(self.frames[-1].tu, d["id"])] = v
            return
        m = re.search(r"\[([A-Za-z_][^\]]*)\]", d.get("type", {}).get("qualType", ""))
        if m: self.event("vla", d.get("name"), d)
        if self.frames[-1].env.get((self.frames[-1].tu, d["id"])) is None: r = self.declare(d, ty)
        else: r = self.frames[-1].env[(self.frames[-1].tu, d["id"])]
        self.undef(r)
        if init is not None: self.init(r, init)
        elif is_arr(ty) and False: pass
    def statics(self, fnode):
        """static locals keep their value between calls: on entry they hold whatever earlier calls left there"""
        ds = fnode.get("_statics")
        if ds is None:
            ds = []
            def walk(n):
                if n.get("kind") == "LambdaExpr": return
                if n.get("kind") == "VarDecl" and n.get("storageClass") == "static": ds.append(n)
                for c in n.get("inner", []) or []:
                    if isinstance(c, dict): walk(c)
            b = body(fnode)
            if b: walk(b)
            fnode["_statics"] = ds
        for d in ds:
            init = [c for c in d.get("inner", []) if isinstance(c, dict)]; ty = norm_type(d.get("type"))
            if self.static_const(d, init[-1] if init and d.get("init") else None): continue
            r = self.declare(d, ty); g = "$g:" + fnode.get("_qual", "") + "::" + d.get("name", "")
            for s, t in self.leaves(ty):
                if "[*]" not in s and not t.endswith("*"): self.mem.d[r.pat + s] = self.rd(g + s, "", (), (), t)
    def static_const(self, d, init):
        """a static constant whose initialiser does not depend on the call that happens to run first"""
        if not norm_const(d) or init is None: return False
        bad = []
        def walk(n):
            if not isinstance(n, dict): return
            if n.get("kind") == "CXXThisExpr": bad.append(n)
            if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") in ("VarDecl", "ParmVarDecl"):
                q = n["referencedDecl"]
                if not re.search(r"\bconst\b", q.get("type", {}).get("qualType", "")) or (self.frames[-1].tu, q.get("id")) in self.frames[-1].env and q.get("kind") == "ParmVarDecl": bad.append(n)
            for c in n.get("inner", []) or []: walk(c)
        walk(init)
        return not bad
    def init(self, r, e):
        """initialise storage r (type r.ty) from initialiser expression e"""
        ty = strip_ref(r.ty)
        e = peel(e)
        k = e.get("kind")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and norm_type(e.get("type")) == ty or (k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (is_vec(ty) or ty in self.prog.records)):
            self.construct(r, e); return
        if k == "InitListExpr" or k == "ImplicitValueInitExpr":
            self.init_list(r, e); return
        if k == "CXXFunctionalCastExpr" and (ty in self.prog.records or is_vec(ty)): self.init(r, e["inner"][0]); return
        if ty in self.prog.records or is_vec(ty) or is_arr(ty):
            v = self.lv(e)
            if isinstance(v, (Ref, RefIte)): self.copy(r, v, e)
            return
        self.write(r, self.coerce(self.ev(e), ty), e)
    def init_list(self, r, e):
        ty = strip_ref(r.ty)
        items = e.get("inner", []) or []
        if is_arr(ty) or is_vec(ty):
            et = elem_type(ty)
            if e.get("array_filler"):
                af = [x for x in e["array_filler"] if isinstance(x, dict)]
                for s, t in self.leaves(et): self.fill(r.pat + "[*]" + s, r.idx, None, ZERO, t, e)
                items = [x for x in af if x.get("kind") != "ImplicitValueInitExpr"] + items
            for i, x in enumerate(items): self.init(r.at(num(i), et), x)
            if is_vec(ty): self.write(r.field("$size", "unsigned long"), num(len(items)), e)
        elif ty in self.prog.records:
            fs = self.prog.records[ty]["fields"]
            if len(items) == 1 and norm_type(items[0].get("type")) == ty and items[0].get("kind") != "InitListExpr":
                self.init(r, items[0]); return
            for (f, t, node), x in zip(fs, items): self.init(r.field(f, t), x)
            for (f, t, node) in fs[len(items):]: self.zero_init(r.field(f, t), e)
        elif items: self.write(r, self.coerce(self.ev(items[0]), ty), e)
        else: self.zero_init(r, e)
    def zero_init(self, r, n):
        for s, t in self.leaves(r.ty):
            if "[*]" in s: self.fill(r.pat + s, r.idx, None, ZERO, t, n)
            else: self.write(Ref(r.pat + s, r.idx, t), FALSE if t == "bool" else ZERO, n)
    def construct(self, r, e):
        """CXXConstructExpr into storage r"""
        ty = strip_ref(r.ty)
        args = [a for a in e.get("inner", []) if isinstance(a, dict)]
        ct = norm_type({"qualType": (e.get("ctorType") or {}).get("qualType", "")})
        if is_vec(ty): return self.vec_construct(r, e, args, ct)
        if ty in self.prog.records:
            if len(args) == 1 and (strip_ref(norm_type(args[0].get("type"))) == ty):
                # user-written copy ctor?
                fs = [f for f in self.prog.find(ty.split("::")[-1] and (ty + "::" + ty.split("::")[-1]), 1, [ty])]
                if not fs:
                    v = self.lv(args[0])
                    if isinstance(v, (Ref, RefIte)): self.copy(r, v, e)
                    return
            ctor = None
            for f in self.prog.find(ty + "::" + ty.split("::")[-1], None):
                if norm_type({"qualType": f.get("type", {}).get("qualType", "")}) == ct: ctor = f
            if ctor is None:
                if not args:
                    # implicit default constructor: default-construct class members
                    rec = self.prog.records[ty]
                    for f, t, node in rec["fields"]:
                        fe = [x for x in node.get("inner", []) or [] if isinstance(x, dict) and (x.get("kind", "").endswith("Expr") or x.get("kind", "").endswith("Literal"))]
                        if fe: self.init(r.field(f, t), fe[-1])
                        elif is_vec(t): self.write(r.field(f, t).field("$size", "unsigned long"), ZERO, e)
                    return
                self.note("constructor of %s (%s)" % (ty, ct), e)
                for a in args: self.ev(a)
                return
            if ty in self.noinline or ctor["_qual"] in self.noinline:
                vals = [self.argval(a) for a in args]
                ver = self.token(ctor["_qual"], vals)
                self.event("call", (ctor["_qual"], r, vals, ctor["_key"], ver), e, mem=True)
                for s, t in self.leaves(ty): self.havoc_at(Ref(r.pat + s, r.idx, t), ver)
                return
            self.call(ctor, r, args, e, ctor=True)
            return
        # opaque class
        vals = [self.ev(a) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if "function<" in ty and len(vals) == 1:
            v = vals[0]
            if isinstance(v, Ref): v = self.mem.d.get(v.pat, v)
            if isinstance(v, Lam): self.mem.d[r.pat] = v; return
        self.event("construct", (ty, r, vals), e)
        self.write(r, fn("new:" + ty, *[self.term(v) for v in vals]), e)
    def vec_construct(self, r, e, args, ct):
        et = elem_type(r.ty)
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        sz = r.field("$size", "unsigned long")
        if not args:
            self.write(sz, ZERO, e); return
        if e.get("initializer_list") or peel(args[0]).get("kind") in ("CXXStdInitializerListExpr",) :
            il = find_kind(args[0], "InitListExpr")
            items = il.get("inner", []) if il else []
            for i, x in enumerate(items): self.init(r.at(num(i), et), x)
            self.write(sz, num(len(items)), e); return
        t0 = strip_ref(norm_type(args[0].get("type")))
        if len(args) == 1 and is_vec(t0):
            v = self.lv(args[0])
            if isinstance(v, (Ref, RefIte)): self.copy(r, v, e)
            return
        if "iterator" in t0 or t0.endswith("*"):
            a = self.ev(args[0]); b = self.ev(args[1])
            if isinstance(a, Iter) and isinstance(b, Iter):
                for s, t in self.leaves(et):
                    self.note("iterator-range construction", e)
                self.write(sz, T.sub(b.pos, a.pos), e)
            for s, t in self.leaves(et): self.havoc(r.pat + "[*]" + s, t, "rng%d" % self.uid("rng", id(e)))
            return
        n = self.ev(args[0])
        self.vec_fill(r, n, None, args[1] if len(args) > 1 else None, e)
        self.write(sz, n, e)
    def vec_fill(self, r, n, lo, valexpr, e):
        """fill elements of vector r (from lo) with value (or value-initialised)"""
        et = elem_type(r.ty)
        if et in self.prog.records or is_vec(et):
            tmp = self.temp(et, e)
            if valexpr is not None:
                v = self.lv(valexpr)
                if isinstance(v, (Ref, RefIte)): self.copy(tmp, v, e)
            elif et in self.prog.records:
                ctors = self.prog.find(et + "::" + et.split("::")[-1], 0)
                if ctors: self.call(ctors[0], tmp, [], e, ctor=True)
                else: self.construct(tmp, {"kind": "CXXConstructExpr", "type": {"qualType": et}, "inner": [], "_loc": e.get("_loc")})
            else: self.write(tmp.field("$size", "unsigned long"), ZERO, e)
            for s, t in self.leaves(et):
                if "[*]" in s:
                    ch = self.mem.d.get(tmp.pat + s)
                    # element values of a nested container of the prototype: single fill expected
                    v = None
                    if isinstance(ch, F) and not ch.pre: v = ch.val
                    elif ch is None: v = self.uninit_val(r.pat + "[*]" + s, t)
                    if v is None: v = self.read_chain(tmp.pat + s, ch, tuple(sym("?%d" % i, True) for i in range(s.count("[*]"))), self.pc, t)
                    self.fill(r.pat + "[*]" + s, r.idx, lo, v, t, e)
                else:
                    v = self.read(Ref(tmp.pat + s, tmp.idx, t))
                    self.fill(r.pat + "[*]" + s, r.idx, lo, v, t, e)
            return
        v = self.coerce(self.ev(valexpr), et) if valexpr is not None else (FALSE if et == "bool" else ZERO)
        self.fill(r.pat + "[*]", r.idx, lo, v, et, e)
    def s_IfStmt(self, n):
        inner = [c for c in n.get("inner", []) if isinstance(c, dict) and c]
        i = 0
        if n.get("hasInit"): self.stmt(inner[i]); i += 1
        if n.get("hasVar"): self.stmt(inner[i]); i += 1
        c = self.cond(inner[i])
        th = inner[i + 1]; el = inner[i + 2] if len(inner) > i + 2 else None
        pc0 = self.pc
        self.pc = b_and(pc0, c); self.stmt(th); p1 = self.pc
        self.pc = b_and(pc0, b_not(c))
        if el is not None: self.stmt(el)
        self.pc = b_or(p1, self.pc)
    def s_ReturnStmt(self, n):
        f = self.frames[-1]
        inner = n.get("inner") or []
        if inner:
            rt = f.rettype
            if is_ref_type(rt): v = self.lv(inner[0])
            elif rt in self.prog.records or is_vec(rt):
                v = f.retslot
                if v is None: v = f.retslot = Ref("%" + f.id + ".$ret", (), rt)
                e = peel(inner[0])
                self.init(v, e)
            else: v = self.coerce(self.ev(inner[0]), rt)
            self.event("return", v, n)
            f.ret = self.vite(self.pc, v, f.ret) if f.ret is not None else v
        else: self.event("return", None, n)
        f.retpc = b_or(f.retpc, self.pc)
        self.pc = FALSE
    def s_BreakStmt(self, n):
        if not self.ctxs: return
        c = self.ctxs[-1]; c.brk = b_or(c.brk, self.pc); self.pc = FALSE
    def s_ContinueStmt(self, n):
        for c in reversed(self.ctxs):
            if not getattr(c, "switch", False): break
        c.cont = b_or(c.cont, self.pc); self.pc = FALSE
    def s_SwitchStmt(self, n):
        inner = [c for c in n.get("inner", []) if isinstance(c, dict) and c]
        v = self.ev(inner[0]); bodyn = inner[-1]
        ctx = LoopCtx(); ctx.switch = True; self.ctxs.append(ctx)
        pc0 = self.pc; taken = FALSE; self.pc = FALSE
        cases = []
        def flat(c):
            if c.get("kind") in ("CaseStmt", "DefaultStmt"):
                sub = [x for x in c.get("inner", []) if isinstance(x, dict) and x]
                cases.append(c); 
                flat(sub[-1])
            else: cases.append(c)
        for c in bodyn.get("inner", []): flat(c)
        vals = [T.eq(v, P(self.ev(c["inner"][0]))) for c in cases if c.get("kind") == "CaseStmt"]
        anyc = FALSE
        for x in vals: anyc = b_or(anyc, x)
        vi = 0
        for c in cases:
            if c.get("kind") == "CaseStmt": self.pc = b_or(self.pc, b_and(pc0, vals[vi])); vi += 1
            elif c.get("kind") == "DefaultStmt": self.pc = b_or(self.pc, b_and(pc0, b_not(anyc)))
            else: self.stmt(c)
        has_default = any(c.get("kind") == "DefaultStmt" for c in cases)
        self.pc = b_or(self.pc, ctx.brk)
        if not has_default: self.pc = b_or(self.pc, b_and(pc0, b_not(anyc)))
        self.ctxs.pop()
        for c in reversed(self.ctxs):
            c.cont = b_or(c.cont, ctx.cont); break
    # loops -------------------------------------------------------------
    def s_ForStmt(self, n):
        inner = n["inner"]
        init, _, cond, inc, bodyn = inner
        if init and init.get('kind'): self.stmt(init)
        self.loop(n, (lambda: self.cond(cond)) if cond and cond.get("kind") else (lambda: TRUE), lambda: self.stmt(bodyn), (lambda: self.ev(inc)) if inc and inc.get("kind") else (lambda: None))
    def s_WhileStmt(self, n):
        inner = [c for c in n["inner"] if isinstance(c, dict) and c]
        self.loop(n, lambda: self.cond(inner[-2]), lambda: self.stmt(inner[-1]), lambda: None)
    def s_DoStmt(self, n):
        inner = n["inner"]
        # the body runs once before the condition is first tested
        first = Ref("%%%s.$first%d" % (self.frames[-1].id, self.uid("do", self.frames[-1].id, id(n))), (), "bool")
        PT.setdefault(first.pat, "bool"); self.undef(first); self.write(first, TRUE, n)
        def bd(): self.write(first, FALSE, n); self.stmt(inner[0])
        self.loop(n, lambda: self.do_cond(first, inner[1]), bd, lambda: None)
    def do_cond(self, first, c):
        f = self.read(first); pc = self.pc
        self.pc = b_and(pc, b_not(f)); v = self.cond(c); self.pc = b_or(b_and(pc, f), self.pc)
        return b_or(f, v)
    def s_CXXForRangeStmt(self, n):
        inner = [c for c in n["inner"] if isinstance(c, dict) and c]
        # [init?], range decl, begin, end, cond, inc, loopvar decl, body
        bodyn = inner[-1]; var = inner[-2]["inner"][0]
        rangedecl = next(c["inner"][0] for c in inner if c.get("kind") == "DeclStmt" and (c["inner"][0].get("name") or "").startswith("__range"))
        cont = self.lv([c for c in rangedecl["inner"] if isinstance(c, dict)][-1])
        ct = cont.ty if isinstance(cont, Ref) else ""
        et = elem_type(ct) or "?"
        pos = Ref("%" + self.frames[-1].id + ".$rng%d" % self.uid("rng", self.frames[-1].id, id(n)), (), "unsigned long")
        self.undef(pos)
        self.write(pos, ZERO, n)
        m = re.search(r"\[(\d+)\]$", ct)
        def cond():
            sz = num(int(m.group(1))) if m else self.read(cont.field("$size", "unsigned long"))
            return T.lt(self.read(pos), sz)
        def bd():
            er = cont.at(self.read(pos), et)
            self.access(cont, er.idx[-1], n)
            vt = norm_type(var.get("type"))
            if is_ref_type(vt): self.frames[-1].env[(self.frames[-1].tu, var["id"])] = er
            else:
                r = self.declare(var, vt); self.undef(r)
                if vt in self.prog.records or is_vec(vt): self.copy(r, er, n)
                else: self.write(r, self.read(er), n)
            self.stmt(bodyn)
        self.loop(n, cond, bd, lambda: self.write(pos, T.add(self.read(pos), ONE), n))

    def iterate(self, cond, body_, inc):
        """one iteration under the current pc; returns (cond, ctx); leaves self.pc = continuing pc"""
        c = cond(); pc0 = self.pc
        self.pc = b_and(pc0, c)
        if self.loopstack: self.loopstack[-1].count = self.small_count(c, self.loopstack[-1])
        ctx = LoopCtx(); self.ctxs.append(ctx)
        body_()
        self.ctxs.pop()
        self.pc = b_or(self.pc, ctx.cont)
        inc()
        return c, ctx
    def loop(self, n, cond, body_, inc):
        if self.pc is FALSE: return
        snap = self.snapshot(); fs = self.fstate()
        # --- constant trip count: unroll
        ex = FALSE; it = 0; ok = True; pc0 = self.pc
        while True:
            c = b_restrict(cond(), self.pc)
            if c is FALSE: ex = b_or(ex, self.pc); break
            if c is not TRUE or it >= self.unroll: ok = False; break
            it += 1
            ctx = LoopCtx(); self.ctxs.append(ctx)
            body_(); self.ctxs.pop()
            self.pc = b_or(self.pc, ctx.cont)
            if self.pc is not FALSE: inc()
            ex = b_or(ex, ctx.brk)
            if self.pc is FALSE: break
        if ok:
            self.pc = ex; return
        self.restore(snap); self.frestore(fs)
        self.general_loop(n, cond, body_, inc)
    def fstate(self): return [(f, f.ret, f.retpc, dict(f.labels), f.retslot) for f in self.frames] + [(c, c.brk, c.cont) for c in self.ctxs]
    def frestore(self, s):
        for x in s:
            if isinstance(x[0], Frame): x[0].ret, x[0].retpc, x[0].labels, x[0].retslot = x[1], x[2], dict(x[3]), x[4]
            else: x[0].brk, x[0].cont = x[1], x[2]
    def general_loop(self, n, cond, body_, inc):
        callpath = self.frames[-1].id
        base = "L%d" % self.uid("loop", callpath, id(n))
        par = self.loopstack[-1].name if self.loopstack else ""
        okey = ("o", par, base); occ = self.occ[okey] = self.occ.get(okey, -1) + 1
        name = base + ("'%d" % occ if occ else "")
        if par: name = par + "." + name
        rec = LoopRec(); rec.name = name; rec.node = n; rec.loc = self.loc(n); rec.func = self.frames[-1].fn.get("_qual"); rec.stack = tuple(f.fn.get("_qual", "?") for f in self.frames)
        rec.katom = atom("sym", "k_" + name, isint=True); rec.k = of_atom(rec.katom)
        pre_pc = self.pc
        snap = self.snapshot(); fs = self.fstate()
        mod = dict(self.modcache.get((callpath, id(n)), {}))
        saved_log, saved_ld = self.writelog, getattr(self, "localdecl", None)
        saved_children = self.cur_children
        nonloc = None
        # -- fixpoint of the modified set
        indvals = {}
        final = False; rounds = 0
        pointwise = {}; promoted = {}; ident = set(); noident = set(); alias = None
        while True:
            rounds += 1
            self.restore(snap); self.frestore(fs)
            self.writelog = {}; self.localdecl = set()
            rec.children = []; self.cur_children = rec.children
            self.loopstack.append(rec)
            if not final: self.scouting += 1
            phis = {}; start = {}
            entry = self.mem
            self.mem = entry.copy()
            for p, t in mod.items():
                if "[*]" not in p:
                    if p in indvals: start[p] = indvals[p]; self.mem.d[p] = indvals[p]; continue
                    if alias and p in alias: continue
                    old = self.scalar_at(entry, p, t)
                    if isinstance(old, Iter):
                        s = self.leaf_sym("φ" + name + ":" + p, "long"); v = Iter(old.ref, s)
                    elif isinstance(old, (Lam,)): v = old
                    elif isinstance(old, (Ptr, PtrIte)) or t.endswith("*"): v = Ptr(Ref(p + "->φ" + name, (), t[:-1].strip()))
                    elif isinstance(old, (Ref, RefIte)): v = old
                    else: v = self.leaf_sym("φ" + name + ":" + p, t)
                    phis[p] = v; start[p] = v; self.mem.d[p] = v
                elif p in pointwise or p in ident: pass
                elif p in promoted:
                    v = self.leaf_sym("φ" + name + ":" + p, t)
                    self.mem.d[p] = W(entry.d.get(p), TRUE, promoted[p], v, None, self.tick())
                else: self.mem.d[p] = V(None, TRUE, "φ" + name, self.kargs(), self.tick())
            for p, (q, d) in (alias or {}).items(): start[p] = self.mem.d[p] = T.add(phis[q], d)
            startmem = self.mem.copy()
            saved_decl = dict(self.declpc)
            # start-of-iteration: locals of enclosing scopes may be written unguarded only
            # relative to the loop's pc
            ev0 = len(self.events)
            for p in list(self.declpc):
                pass
            self.declpc = {}
            self.pc = pre_pc
            frets = [(f, f.ret, f.retpc) for f in self.frames]
            for f in self.frames: f.ret, f.retpc = f.ret, FALSE
            outerctx = self.ctxs; self.ctxs = []
            c, ctx = self.iterate(cond, body_, inc)
            self.ctxs = outerctx
            log = {p: t for p, t in self.writelog.items() if p not in self.localdecl}
            endmem = self.mem; pc_end = self.pc
            self.loopstack.pop()
            self.declpc = saved_decl
            if not final: self.scouting -= 1
            new = {p: t for p, t in log.items() if p not in mod}
            if new:
                mod.update(new); 
                if rounds > MAXIT: raise Unsupported("loop fixpoint")
                final = False; indvals = {}; pointwise = {}; promoted = {}; ident = set(); alias = None
                continue
            if not final:
                # induction variables
                cand = {}
                for p, t in mod.items():
                    if "[*]" in p: continue
                    ph = phis.get(p); endv = endmem.d.get(p)
                    iv = self.scalar_at(entry, p, t)
                    a, b0 = (ph.pos, iv) if isinstance(ph, Iter) else (ph, iv)
                    e = endv.pos if isinstance(endv, Iter) else endv
                    if isinstance(iv, Iter): b0 = iv.pos
                    if isinstance(e, Bdd) and isinstance(b0, Bdd) and p[0] == "%":
                        # a flag every iteration leaves with the same value
                        e = TRUE if b_and(pc_end, b_not(e)) is FALSE else FALSE if b_and(pc_end, e) is FALSE else e
                        if e in (TRUE, FALSE) and b0 in (TRUE, FALSE) and pc_end is not FALSE:
                            first = T.lt(rec.k, ONE)
                            cand[p] = b0 if b0 is e else first if b0 is TRUE else b_not(first)
                        continue
                    if not isinstance(a, Poly) or not isinstance(e, Poly) or not isinstance(b0, Poly): continue
                    e = under(e, pc_end)
                    d = T.sub(e, a)
                    if d is ZERO and False: continue
                    if d.const() is not None or not any(self.is_loop_sym(s, name) for s in d.syms):
                        if d.hasite or self.is_uninit(b0) or t in self.prog.enums: continue
                        if d.const() is None and not self.invariant(d, mod): continue
                        v = T.add(b0, T.mul(d, rec.k))
                        cand[p] = Iter(iv.ref, v) if isinstance(iv, Iter) else v
                if cand != indvals and not indvals:
                    indvals = cand
                    if cand:
                        rec.ind = dict(cand)
                        continue
                # counters that stay a constant apart from the size of a container
                nx = self.lockstep(mod, indvals, alias, phis, entry, endmem)
                if nx != alias:
                    old_alias, alias = alias, nx
                    if nx or old_alias: continue
                # pointwise arrays
                pw = {}
                if not getattr(self, "_nopw", False):
                    for p in mod:
                        if "[*]" not in p: continue
                        q = self.pointwise_of(p, startmem, endmem, rec, True)
                        if q is not None: pw[p] = q
                    # reads of candidate arrays inside the loop must be at the same index
                    pw = self.check_pw_reads(pw, ev0, rec)
                pointwise = pw
                promoted = {}
                ident = {p for p in mod if "[*]" in p and p not in noident and self.identity(p, startmem, endmem, b_or(pc_end, b_or(ctx.brk, c)))}
                for p in ident: pointwise.pop(p, None)
                for p in mod:
                    if "[*]" in p and p not in pw and p not in ident:
                        ix = self.single_index(p, startmem, endmem, rec)
                        if ix is not None and not mod[p].endswith("*"): promoted[p] = ix
                final = True
                continue
            if alias:
                bad = [p for p, (q, d) in alias.items() if T.sub(T.sub(endmem.d[p], endmem.d[q]), d) is not ZERO]
                if bad:
                    for p in bad: alias.pop(p)
                    final = False
                    continue
            bad = [p for p in ident if not self.identity(p, startmem, endmem, b_or(pc_end, b_or(ctx.brk, c)))]
            if bad:
                ident -= set(bad); noident |= set(bad)
                continue
            bad = [p for p in promoted if self.single_index(p, startmem, endmem, rec) != promoted[p]]
            if bad:
                for p in bad: promoted.pop(p)
                continue
            bad = [p for p in pointwise if self.pointwise_of(p, startmem, endmem, rec) is None]
            if bad:
                for p in bad: pointwise.pop(p)
                continue
            break
        # -------- record
        for p in ident: mod.pop(p)
        self.modcache[(callpath, id(n))] = dict(mod)
        rec.mod = mod; rec.cond = c; rec.pre_pc = pre_pc; rec.entry = entry; rec.start = startmem; rec.end = endmem
        rec.pc_end = pc_end; rec.breaks = ctx.brk; rec.phis = phis; rec.ind = {p: v for p, v in indvals.items()}
        rec.promoted = dict(promoted)
        rec.pointwise = set(pointwise); rec.events = self.events[ev0:]
        rec.rets = [(f, f.retpc, f.ret) for f in self.frames if f.retpc is not FALSE]
        rec.carried = {p: (self.scalar_at(entry, p, mod[p]), phis[p], endmem.d.get(p)) for p in phis}
        rec.trip = self.trip(rec)
        self.cur_children = saved_children; self.cur_children.append(rec)
        # writes log to the outer loop
        self.writelog = saved_log; self.localdecl = saved_ld if saved_ld is not None else set()
        if self.writelog is not None:
            for p, t in mod.items(): self.writelog.setdefault(p, t)
        # -------- post state
        self.mem = entry.copy()
        sn = self.snapshot(); wl, self.writelog = self.writelog, {}; self.scouting += 1
        self.pc = pre_pc
        c0 = b_restrict(cond(), pre_pc)
        if self.occ != sn[3]: c0 = TRUE       # the condition calls something
        self.scouting -= 1; self.restore(sn); self.writelog = wl
        if not clean_cond(c0, name): c0 = TRUE
        g0 = b_and(pre_pc, c0)
        exits = self.exit_guard(rec)
        clean = ctx.brk is FALSE and not rec.rets
        rec.clean = clean
        for p, t in sorted(mod.items(), key=lambda x: bool(alias) and x[0] in alias):
            if "[*]" not in p:
                if alias and p in alias: v = T.add(self.mem.d[alias[p][0]], alias[p][1])
                elif p in indvals and clean and rec.trip is not None:
                    sm = {rec.katom: rec.trip}
                    v = indvals[p]
                    v = Iter(v.ref, T.subst(v.pos, sm)) if isinstance(v, Iter) else T.subst(v, sm)
                else:
                    old = self.scalar_at(entry, p, t)
                    if p in phis and self.same_val(endmem.d.get(p), phis[p], pc_end) and clean and not self.is_written_on_exit(p, rec): v = old
                    elif isinstance(old, Iter): v = Iter(old.ref, self.leaf_sym("ω" + name + ":" + p, "long"))
                    elif isinstance(old, Lam): v = old
                    elif t.endswith("*") or isinstance(old, (Ptr, PtrIte)): v = Ptr(Ref(p + "->ω" + name, (), t[:-1].strip()))
                    else:
                        v = self.leaf_sym("ω" + name + ":" + p, t)
                        if c0 is not TRUE and isinstance(old, (Poly, Bdd)) and type(old) is type(v) and not (isinstance(old, Poly) and self.is_uninit(old)): v = self.vite(c0, v, old)
                self.mem.d[p] = v if pre_pc is TRUE or True else v
            elif p in pointwise and clean:
                q = self.pointwise_of(p, startmem, endmem, rec)
                if q is None: self.mem.d[p] = V(entry.d.get(p), g0, "ω" + name, self.kargs(), self.tick())
                else: self.mem.d[p] = M(entry.d.get(p), pre_pc, rec, q[0], q[1], self.tick())
            elif p in promoted:
                self.mem.d[p] = W(entry.d.get(p), g0, promoted[p], self.leaf_sym("ω" + name + ":" + p, t), self.loc(n), self.tick())
            else:
                self.mem.d[p] = V(entry.d.get(p), g0, "ω" + name, self.kargs(), self.tick())
        # control after the loop
        self.pc = pre_pc
        for f, r0, p0 in frets:
            rpc = f.retpc; rv = f.ret
            if rpc is not FALSE:
                R = b_atom(atom("lp", "R" + name, self.kargs()))
                if isinstance(rv, Poly):
                    u = under(rv, rpc)
                    if u.const() is None: u = self.leaf_sym("ρ" + name, f.rettype) if not isinstance(u, Bdd) else u
                    rv = u
                elif isinstance(rv, Bdd):
                    u = b_restrict(rv, rpc)
                    if u not in (TRUE, FALSE): u = b_atom(atom("lp", "ρ" + name, self.kargs()))
                    rv = u
                hit = b_and(pre_pc, R)
                f.ret = rv if r0 is None else (self.vite(hit, rv, r0) if rv is not None else r0)
                f.retpc = b_or(p0, hit)
                self.pc = b_and(self.pc, b_not(R))
            else: f.ret, f.retpc = r0, p0
        if exits is not FALSE:
            X = b_atom(atom("lp", "X" + name, self.kargs()))
            self.pc = b_and(self.pc, b_not(X))
        rec.post_pc = self.pc
        self.event("loopend", rec, n)
    def lockstep(self, mod, indvals, alias, phis, entry, endmem):
        """partition refinement of integer scalars by constant difference at entry and after every iteration"""
        cls = {}
        if alias is None:
            for p, t in mod.items():
                if "[*]" in p or p in indvals or not isinstance(phis.get(p), Poly) or not (p.endswith("$size") or is_int_type(t, self.prog)) or t in self.prog.enums: continue
                v = self.scalar_at(entry, p, t); e = endmem.d.get(p)
                if not isinstance(v, Poly) or not isinstance(e, Poly) or e is phis[p] or self.is_uninit(v): continue
                c = v.const(); c0 = num(c) if c is not None else ZERO
                if c is None:
                    c0 = num(dict(v.items).get((), 0))
                cls.setdefault(id(T.sub(v, c0)), []).append((p, c0))
        else:
            grp = {}
            for p, (q, d) in alias.items(): grp.setdefault(q, [(q, ZERO)]).append((p, d))
            for q, l in grp.items():
                for p, d in l:
                    e = endmem.d.get(p)
                    cls.setdefault((q, id(T.sub(e, d)) if isinstance(e, Poly) else p), []).append((p, d))
        out = {}
        for l in cls.values():
            if len(l) < 2 or not any(p.endswith("$size") for p, d in l) or all(p.endswith("$size") for p, d in l): continue
            l.sort(key=lambda x: (x[0].endswith("$size"), x[0]))
            q, d0 = l[0]
            for p, d in l[1:]: out[p] = (q, T.sub(d, d0))
        return out
    def is_written_on_exit(self, p, rec): return False
    def same_val(self, a, b, pc):
        if a is b: return True
        if isinstance(a, (Poly, Bdd)) and isinstance(b, (Poly, Bdd)): return under(a, pc) is under(b, pc)
        return False
    def scalar_at(self, mem, p, t):
        v = mem.d.get(p)
        if v is None:
            m = self.mem; self.mem = mem
            try: return self.init_scalar(Ref(p, (), t))
            finally: self.mem = m
        return v
    def is_loop_sym(self, a, name):
        if a.kind == "lp":
            nm = a.args[0]; ln = nm[1:].split(":")[0].split("@")[0]
            return ln == name or ln.startswith(name + ".") or ("@" in nm and any(q == name or q.startswith(name + ".") for q in nm.split("@")[1:]))
        if a.kind == "sym": return a.args[0] == "k_" + name or a.args[0].startswith("k_" + name + ".")
        if a.kind == "rd": return a.args[1][1:] == name or a.args[1][1:].startswith(name + ".") or name in a.args[1].split("@")[1:]
        return False
    def invariant(self, d, mod):
        return not any(s.kind == "lp" or s.kind == "rd" for s in d.syms)
    def exit_guard(self, rec):
        for e in rec.events:
            if e.kind == "exit": return e.pc
        return FALSE
    def trip(self, rec):
        """closed-form trip count when the loop's own condition bounds an induction variable"""
        if rec.breaks is not FALSE or rec.rets: return None
        c = rec.cond
        if c.v is None: return None
        if not ((c.hi is TRUE and c.lo is FALSE) or (c.hi is FALSE and c.lo is TRUE)): 
            return self.trip_ne(rec, c)
        cv = T.condvar(c.v); pos = c.hi is TRUE
        if cv.kind == "b": return None
        p = cv.p
        coef = None; rest = {}
        for m, k in p.items:
            ids = [a for a, e in m]
            if rec.katom.id in ids:
                if len(m) != 1 or m[0][1] != 1 or coef is not None: return None
                coef = k
            else: rest[m] = k
        rest = T._mk(rest)
        if coef is None or rec.katom in rest.syms or any(self.is_loop_sym(s, rec.name) for s in rest.syms): return None
        # cond: coef*k + rest < c  (or negation)
        cc = num(cv.c)
        if cv.kind == "lt" and pos and coef == 1: N = T.sub(cc, rest)           # k < c - rest
        elif cv.kind == "lt" and not pos and coef == -1: N = T.add(T.sub(rest, cc), ONE)   # -k+rest >= c -> k <= rest-c
        elif cv.kind == "lt" and pos and coef > 1 and p.isint:
            N = T.idiv_(T.add(T.sub(cc, rest), num(coef - 1)), num(coef))
        else: return None
        if self.nonneg(N): return N
        return T.ite(T.lt(N, ZERO), ZERO, N)
    def trip_ne(self, rec, c):
        # i != n  ==  not (i <= n and n <= i): structure lt | gt
        sup = sorted(b_support(c))
        if len(sup) != 2: return None
        a, b = T.condvar(sup[0]), T.condvar(sup[1])
        if a.p is not b.p or a.kind != "lt" or b.kind != "lt": return None
        lo = min(a.c, b.c)
        if abs(a.c - b.c) != 1: return None
        # p in [lo, lo+1) excluded  => p == lo
        if T.ne(a.p, num(lo)) is not c: return None
        coef = None
        for m, k in a.p.items:
            if any(x == rec.katom.id for x, e in m):
                if len(m) != 1 or coef is not None: return None
                coef = k
        if coef not in (1, -1): return None
        rest = T.sub(a.p, T.scale(rec.k, coef))
        if any(self.is_loop_sym(s, rec.name) for s in rest.syms): return None
        N = T.sub(num(lo), rest) if coef == 1 else T.sub(rest, num(lo))
        return N
    def nonneg(self, p):
        """syntactic: sums of products of unsigned atoms with positive coefficients"""
        for m, k in p.items:
            if k < 0: return False
            for ai, e in m:
                a = T._atom_list[ai]
                if not is_nonneg_atom(a): return False
        return True
    def chain_suffix(self, ch, stop):
        out = []
        while ch is not None and ch is not stop:
            out.append(ch); ch = ch.prev
        return list(reversed(out)), ch is stop
    def identity(self, p, startmem, endmem, pc):
        """an iteration leaves array p as it found it (every element is restored)"""
        ws, ok = self.chain_suffix(endmem.d.get(p), startmem.d.get(p))
        if not ok or len(ws) < 2 or len(ws) > 6 or not all(isinstance(w, W) and isinstance(w.val, Poly) for w in ws): return False
        ty = self.mod_type(p)
        if ty is None: return False
        idx = tuple(sym("?%d" % i, True) for i in range(p.count("[*]")))
        m0 = self.mem
        try:
            self.mem = endmem; e = self.read(Ref(p, idx, ty), pc=pc)
            self.mem = startmem; s = self.read(Ref(p, idx, ty), pc=pc)
        finally: self.mem = m0
        try: return isinstance(e, Poly) and isinstance(s, Poly) and T.differ(e, s, pc, budget=4000) is None
        except T.Budget: return False
    def mod_type(self, p):
        t = (self.writelog or {}).get(p)
        return t if t and not t.endswith("*") else None
    def single_index(self, p, startmem, endmem, rec):
        """all writes of the loop to array p hit one loop-invariant element"""
        ws, ok = self.chain_suffix(endmem.d.get(p), startmem.d.get(p))
        if not ok or not ws: return None
        ix = None
        for w in ws:
            if not isinstance(w, W): return None
            if ix is None: ix = w.idx
            elif len(w.idx) != len(ix) or any(x is not y for x, y in zip(ix, w.idx)): return None
            if not isinstance(w.val, (Poly, Bdd)): return None
        for x in ix:
            if rec.katom in x.syms or any(self.is_loop_sym(q, rec.name) for q in all_syms(x)): return None
            if any(a.kind == "sym" and a.args[0].startswith("k_" + rec.name + ".") for a in x.syms): return None
        return ix
    def pointwise_of(self, p, startmem, endmem, rec, opt=False):
        st = startmem.d.get(p); en = endmem.d.get(p)
        ws, ok = self.chain_suffix(en, st)
        if not ok or not ws: return None
        idxs = []
        def flat(w):
            if isinstance(w, W):
                idxs.append(w.idx)
                ts = (w.g,) + w.idx + ((w.val,) if isinstance(w.val, (Poly, Bdd)) else ())
                if isinstance(w.val, (Ref, RefIte, Lam, Iter)): return False
            elif isinstance(w, (F, C)) and w.pre:
                idxs.append(w.pre)
                ts = (w.g,) + w.pre
                if isinstance(w, F): ts += ((w.val,) if isinstance(w.val, (Poly, Bdd)) else ())
                else: ts += w.sidx
            elif isinstance(w, M):
                if not opt and self.depends(w.g, rec): return False
                return all(flat(x) for x in w.items)
            else: return False
            return opt or not any(self.depends(t, rec) for t in ts)
        if not all(flat(w) for w in ws): return None
        n = min(len(x) for x in idxs)
        for comp in range(n):
            i0 = idxs[0][comp]
            coef = None; bad = False; rest = {}
            for m, k in i0.items:
                if any(a == rec.katom.id for a, e in m):
                    if len(m) != 1 or m[0][1] != 1 or coef is not None or k not in (1, -1): bad = True
                    coef = k
                else: rest[m] = k
            rest = T._mk(rest)
            if bad or coef is None or rec.katom in rest.syms: continue
            if all(w[comp] is i0 for w in idxs): return (("aff", comp, int(coef), rest), ws)
        # (k mod a, k div a)
        for c1 in range(n):
            a1 = idxs[0][c1].single()
            if a1 is None or a1.kind != "fn" or a1.args[0] != "mod" or a1.args[1] is not rec.k: continue
            for c2 in range(n):
                a2 = idxs[0][c2].single()
                if a2 is None or a2.kind != "fn" or a2.args[0] != "idiv" or a2.args[1] is not rec.k or a2.args[2] is not a1.args[2]: continue
                if all(w[c1] is idxs[0][c1] and w[c2] is idxs[0][c2] for w in idxs): return (("md", c1, c2, a1.args[2]), ws)
        return None
    def depends(self, t, rec):
        """does the term depend on loop-carried (non-induction) state of rec?"""
        for s in all_syms(t):
            nm = s.args[0] if s.kind == "lp" else (s.args[1] if s.kind == "rd" else None)
            if not nm: continue
            if "@" in nm and any(q == rec.name or q.startswith(rec.name + ".") for q in nm.split("@")[1:]): return True
            if nm[0] in "φωρRX":
                ln = nm[1:].split(":")[0].split("@")[0]
                if ln == rec.name: return True
                if ln.startswith(rec.name + ".") and not self.inner_clean(nm, rec): return True
        return False
    def inner_clean(self, nm, rec):
        """symbol of a loop nested in rec whose own body does not use rec's carried state"""
        ln = nm[1:].split(":")[0]
        if ln == rec.name: return False
        for c in all_loops(rec.children):
            if c.name == ln:
                st = getattr(c, "_clean_for", None)
                if st is None: st = c._clean_for = {}
                if rec.name not in st:
                    st[rec.name] = True
                    ok = True
                    for e in c.events:
                        if e.kind == "write":
                            v = e.data[1]
                            ts = [e.pc] + list(e.data[0].idx if isinstance(e.data[0], Ref) else ()) + ([v] if isinstance(v, (Poly, Bdd)) else [])
                            if any(self.depends_direct(x, rec) for x in ts): ok = False; break
                    for p, (i0, ph, nx) in c.carried.items():
                        if isinstance(i0, (Poly, Bdd)) and self.depends_direct(i0, rec): ok = False
                    if self.depends_direct(c.cond, rec): ok = False
                    st[rec.name] = ok
                return st[rec.name]
        return False
    def depends_direct(self, t, rec):
        for s in all_syms(t):
            nm = s.args[0] if s.kind == "lp" else (s.args[1] if s.kind == "rd" else None)
            if not nm: continue
            if "@" in nm and rec.name in nm.split("@")[1:]: return True
            if nm[0] in "φωρRX" and nm[1:].split(":")[0].split("@")[0] == rec.name: return True
        return False
    def check_pw_reads(self, pw, ev0, rec):
        """keep arrays whose in-loop reads are only at the element written by the same iteration"""
        out = dict(pw)
        for e in self.events[ev0:]:
            if e.kind == "call" and out:
                # a non-inlined call may read anything
                return {} if not self.opts.get("calls_pure") else out
            if e.kind in ("read", "copy"):
                r = e.data[1] if e.kind == "copy" else e.data
                p = r.pat
                if p in out:
                    iv, ws = out[p]
                    if iv[0] == "aff":
                        want = T.add(T.scale(rec.k, iv[2]), iv[3])
                        if iv[1] >= len(r.idx) or r.idx[iv[1]] is not want: out.pop(p, None)
                    else: out.pop(p, None)
        return out

    # ------------------------------------------------------------ expressions
    def cond(self, n):
        return self.small_cond(self.tobool(self.ev(n)))
    def small_cond(self, b):
        """a condition on the counter of a loop of a few iterations, in one canonical form"""
        if not self.loopstack or b.v is None: return b
        l = self.loopstack[-1]; N = getattr(l, "count", None)
        if not N: return b
        for i in T.b_support(b):
            x = T.condvar(i)
            if x.p is None or x.p.syms != frozenset((l.katom,)): return b
        key = (b.id, l.katom.id, N); r = _small.get(key)
        if r is None:
            r = FALSE; prev = False
            for i in range(N):
                v = T.subst(b, {l.katom: num(i)})
                if v not in (TRUE, FALSE): r = b; break
                if i == 0: r = v
                elif (v is TRUE) != prev: r = b_ite(T.lt(l.k, num(i)), r, v)
                prev = v is TRUE
            _small[key] = r
        return r
    def small_count(self, c, l):
        """N when the loop condition is counter < N for a small N"""
        sup = T.b_support(c)
        if len(sup) != 1: return None
        x = T.condvar(next(iter(sup)))
        if x.p is None or x.p.syms != frozenset((l.katom,)): return None
        for i in range(17):
            v = T.subst(c, {l.katom: num(i)})
            if v is FALSE: return i
            if v is not TRUE: return None
        return None
    def tobool(self, v):
        if isinstance(v, Bdd): return v
        if isinstance(v, Poly): return T.ne(v, ZERO)
        if isinstance(v, Ptr):
            if v.ref is None: return FALSE
            if isinstance(v.ref, Ref) and "->" in v.ref.pat: return b_atom(atom("fn", "nonnull", v.ref.pat, *v.ref.idx))
            return TRUE
        if isinstance(v, PtrIte): return b_ite(v.c, self.tobool(v.a), self.tobool(v.b))
        if isinstance(v, (Lam, Ref, RefIte)): return TRUE
        return b_atom(atom("fn", "tobool", str(v)))
    def term(self, v):
        if isinstance(v, Poly): return v
        if isinstance(v, Bdd): return P(v)
        if isinstance(v, str): return v
        if isinstance(v, Ref): return fn("&", v.pat, *v.idx)
        if isinstance(v, Ptr): return fn("null") if v.ref is None else self.term(v.ref)
        if isinstance(v, Iter): return fn("it", self.term(v.ref), v.pos)
        if isinstance(v, (RefIte, PtrIte)): return T.ite(v.c, P(self.term(v.a)), P(self.term(v.b)))
        if isinstance(v, Lam): return fn("lambda", id(v.node))
        if v is None: return fn("void")
        return fn("?", str(v))
    def lossy(self, v, to, frm, n=None):
        """conversions that lose part of the value are not the identity"""
        if not isinstance(v, Poly) or v.const() is not None: return v
        if to == "float" and frm in ("double", "long double") or to in NARROW and NARROW.get(frm, 99) > NARROW[to]: self.event("lossy", (v, to), n)
        if to == "float" and frm in ("double", "long double"): return lift1(lambda a: a if a.const() is not None else fn("f32", a), v)
        if to in NARROW and NARROW.get(frm, 99) > NARROW[to]: return lift1(lambda a: a if a.const() is not None else fn("low" + str(NARROW[to]), a, isint=True), v)
        return v
    def coerce(self, v, ty):
        ty = strip_ref(ty)
        if ty == "bool": return self.tobool(v) if not isinstance(v, Bdd) else v
        if isinstance(v, Bdd): return P(v)
        return v
    def argval(self, a):
        a2 = peel(a)
        t = strip_ref(norm_type(a.get("type")))
        if t in self.prog.records or is_vec(t): return self.lv(a)
        return self.ev(a)
    def ev(self, n):
        k = n.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expression " + str(k), n)
            for c in n.get("inner", []) or []:
                if isinstance(c, dict) and c: self.ev(c)
            return fn("opq", k + str(self.uid("opq", id(n))))
        l = n.get("_loc")
        if l and l[0] and l[1]:
            self.curloc = self.loc(n)
        return m(n)
    def rval_of(self, ref, n=None):
        if isinstance(ref, (Ref,)):
            ty = strip_ref(ref.ty)
            if ty in self.prog.records or is_vec(ty) or is_arr(ty): return ref
            self.event("read", ref, n)
            return self.read(ref)
        if isinstance(ref, RefIte):
            ty = first_ref(ref).ty
            if strip_ref(ty) in self.prog.records or is_vec(ty): return ref
            return self.read(ref)
        return ref
    def e_IntegerLiteral(self, n): return num(int(n["value"]))
    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        return num(Fraction(n["value"]))
    def e_CharacterLiteral(self, n): return num(int(n["value"]))
    def e_CXXBoolLiteralExpr(self, n): return TRUE if n.get("value") else FALSE
    def e_StringLiteral(self, n): return fn("str", n.get("value"))
    def e_GNUNullExpr(self, n): return ZERO
    def e_CXXNullPtrLiteralExpr(self, n): return Ptr(None)
    def e_ImplicitValueInitExpr(self, n): return ZERO
    def e_CXXScalarValueInitExpr(self, n): return FALSE if norm_type(n.get("type")) == "bool" else ZERO
    def e_ParenExpr(self, n): return self.ev(n["inner"][0])
    def e_ConstantExpr(self, n): return self.ev(n["inner"][0])
    def e_ExprWithCleanups(self, n): return self.ev(n["inner"][0])
    def e_MaterializeTemporaryExpr(self, n): return self.ev(n["inner"][0])
    def e_CXXBindTemporaryExpr(self, n): return self.ev(n["inner"][0])
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n["inner"][-1])
    def e_CXXStdInitializerListExpr(self, n): return self.ev(n["inner"][0])
    def e_CXXDefaultArgExpr(self, n):
        return self.ev(n["inner"][0]) if n.get("inner") else fn("default")
    SIZES = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "char": 1, "unsigned char": 1, "bool": 1, "long": 8, "unsigned long": 8, "short": 2, "long double": 16}
    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = (n.get("argType") or {}).get("qualType", "") or norm_type((n.get("inner") or [{}])[0].get("type"))
        z = self.SIZES.get(strip_ref(norm_type({"qualType": t}))) if n.get("name", "sizeof") == "sizeof" else None
        return num(z) if z else fn("sizeof", t, isint=True)
    def e_PredefinedExpr(self, n): return fn("str", "__func__")
    def e_CXXThisExpr(self, n): return Ptr(self.thisref())
    def thisref(self):
        f = self.frames[-1]
        while f is not None and f.thisref is None: f = f.parent
        return f.thisref
    def e_DeclRefExpr(self, n):
        r = n.get("referencedDecl", {})
        if r.get("kind") == "EnumConstantDecl":
            c = self.prog.enum_const.get((n.get("_tu") or self.frames[-1].tu, r["id"]))
            if c: return num(c[1])
            t = norm_type(n.get("type"))
            if t in self.prog.enums and r["name"] in self.prog.enums[t]: return num(self.prog.enums[t][r["name"]])
            return fn("enum", r.get("name"), isint=True)
        if r.get("kind") in ("FunctionDecl", "CXXMethodDecl"): return fn("func", r.get("name"))
        return self.lv(n)
    def e_MemberExpr(self, n): return self.lv(n)
    def e_ArraySubscriptExpr(self, n): return self.lv(n)
    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind"); x = n["inner"][0]
        if ck == "LValueToRValue": 
            v = self.lv(x)
            return self.rval_of(v, n)
        if ck == "ArrayToPointerDecay":
            if peel(x).get("kind") == "StringLiteral" : return self.ev(x)
            r = self.lv(x)
            return Iter(r, ZERO) if isinstance(r, Ref) else r
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"): return self.ev(x)
        if ck == "NullToPointer": return Ptr(None)
        v = self.ev(x)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return self.tobool(v)
        if ck == "FloatingToIntegral":
            if isinstance(v, Bdd): v = P(v)
            self.event("trunc", (v, norm_type(n.get("type"))), n)
            if isinstance(v, Poly): return self.trunc(v)
            return v
        if ck in ("IntegralToFloating", "IntegralCast", "BooleanToSignedIntegral", "FloatingCast"):
            if isinstance(v, Bdd): return P(v)
            if ck == "IntegralCast" and isinstance(v, Poly) and v.const() is not None and v.const() < 0 and is_unsigned(norm_type(n.get("type"))):
                return num(v.const() + (2 ** 64 if "long" in norm_type(n.get("type")) else 2 ** 32))
            if ck == "IntegralCast" and isinstance(v, Poly) and norm_type(n.get("type")) in ("int", "short", "char", "unsigned char", "unsigned short") and is_unsigned(norm_type(x.get("type"))):
                self.event("narrow", (v, norm_type(n.get("type"))), n)
            return self.lossy(v, norm_type(n.get("type")), norm_type(x.get("type")), n)
        return v
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    def e_UnaryOperator(self, n):
        op = n.get("opcode"); x = n["inner"][0]
        if op in ("++", "--"):
            r = self.lv(x); self.event("read", r, n) if isinstance(r, Ref) else None
            old = self.read(r)
            d = ONE if op == "++" else num(-1)
            if isinstance(old, Iter): new = Iter(old.ref, T.add(old.pos, d))
            elif isinstance(old, Poly): new = T.add(old, d)
            else: new = old
            if norm_type(n.get("type")) in NARROW and isinstance(r, Ref): self.event("count", (r, norm_type(n.get("type"))), n)
            if op == "--" and isinstance(old, Poly) and is_unsigned(norm_type(n.get("type"))): self.event("usub", (old, ONE), n)
            self.write(r, new, n)
            return old if n.get("isPostfix") else (r if n.get("valueCategory") == "lvalue" else new)
        if op == "&":
            r = self.lv(x)
            return Ptr(r) if isinstance(r, (Ref, RefIte)) else r
        if op == "*": return self.lv(n)
        v = self.ev(x)
        if op == "!": return b_not(self.tobool(v))
        v = P(v) if isinstance(v, (Poly, Bdd)) else v
        if op == "-": return T.neg(v) if isinstance(v, Poly) else v
        if op == "+": return v
        if op == "~": return fn("bitnot", v, isint=True)
        return v
    def e_BinaryOperator(self, n):
        op = n.get("opcode"); a, b = n["inner"]
        if op == "=":
            t = norm_type(a.get("type"))
            v = self.ev(b)
            r = self.lv(a)
            self.write(r, self.coerce(v, t), n)
            return r
        if op == ",":
            self.ev(a); return self.ev(b)
        if op in ("&&", "||"):
            x = self.cond(a); pc0 = self.pc
            self.pc = b_and(pc0, x if op == "&&" else b_not(x))
            y = self.cond(b) if self.pc is not FALSE else FALSE
            self.pc = pc0 if self.pc is not FALSE or True else self.pc
            return b_and(x, y) if op == "&&" else b_or(x, y)
        x = self.ev(a); y = self.ev(b)
        return self.binop(op, x, y, norm_type(n.get("type")), n, norm_type(a.get("type")))
    def binop(self, op, x, y, ty, n, aty=None):
        if isinstance(x, Ref) and is_arr(x.ty): x = Iter(x, ZERO)
        if isinstance(x, Iter) or isinstance(y, Iter):
            if isinstance(x, Iter) and isinstance(y, Iter):
                if op == "-": return T.sub(x.pos, y.pos)
                if op in ("==", "!=", "<", ">", "<=", ">="): x, y = x.pos, y.pos
                else: return fn("opq", "iter")
            elif isinstance(x, Iter) and isinstance(y, Poly):
                if op == "+": return Iter(x.ref, T.add(x.pos, y))
                if op == "-": return Iter(x.ref, T.sub(x.pos, y))
            elif op == "+" and isinstance(x, Poly): return Iter(y.ref, T.add(y.pos, x))
        if isinstance(x, (Ptr, PtrIte)) or isinstance(y, (Ptr, PtrIte)):
            if op in ("==", "!="):
                def isnull(v): return (isinstance(v, Ptr) and v.ref is None) or (isinstance(v, Poly) and v is ZERO)
                if isnull(y): c = b_not(self.tobool(x))
                elif isnull(x): c = b_not(self.tobool(y))
                else: c = T.eq(P(self.term(x)), P(self.term(y)))
                return c if op == "==" else b_not(c)
            if op == "+" and isinstance(x, Poly) and isinstance(y, Ptr): x, y = y, x
            if isinstance(x, Ptr) and x.ref is not None and x.ref.pat.endswith("[*]") and x.ref.idx:       # pointers to elements
                if op in ("+", "-") and isinstance(y, Poly): return Ptr(Ref(x.ref.pat, x.ref.idx[:-1] + ((T.add if op == "+" else T.sub)(x.ref.idx[-1], y),), x.ref.ty))
                if isinstance(y, Ptr) and y.ref is not None and y.ref.pat == x.ref.pat and y.ref.idx[:-1] == x.ref.idx[:-1]:
                    if op == "-": return T.sub(x.ref.idx[-1], y.ref.idx[-1])
                    if op in ("<", ">", "<=", ">="): return self.binop(op, x.ref.idx[-1], y.ref.idx[-1], ty, n, aty)
            if isinstance(x, Ptr) and op in ("+", "-") and isinstance(y, Poly): return x
            return fn("opq", "ptr")
        if isinstance(x, Bdd) and isinstance(y, Bdd) and op in ("==", "!=", "&", "|", "^"):
            return {"==": lambda: b_not(b_xor(x, y)), "!=": lambda: b_xor(x, y), "&": lambda: b_and(x, y), "|": lambda: b_or(x, y), "^": lambda: b_xor(x, y)}[op]()
        x = P(x) if isinstance(x, (Poly, Bdd)) else P(self.term(x)); y = P(y) if isinstance(y, (Poly, Bdd)) else P(self.term(y))
        if self.fp_opaque and op in "+-*/" and ty in REAL_TYPES and not (x.const() is not None and y.const() is not None):
            return fn("fp" + op, x, y)      # rounded operation: no cancellation, no reassociation
        if op == "+": return T.add(x, y)
        if op == "-":
            if is_unsigned(ty): self.event("usub", (x, y), n)
            return T.sub(x, y)
        if op == "*": return T.mul(x, y)
        if op == "/":
            if ty in INT_TYPES: return lift2(T.idiv_, x, y)
            self.event("div", (x, y), n)
            return T.div(x, y)
        if op == "%":
            self.event("mod", (x, y), n)
            return lift2(self.mod_, x, y)
        if op == "<": return T.lt(x, y)
        if op == ">": return T.lt(y, x)
        if op == "<=": return T.le(x, y)
        if op == ">=": return T.le(y, x)
        if op == "==": return T.eq(x, y)
        if op == "!=": return T.ne(x, y)
        if op == ">>": return lift2(lambda a, b: T.idiv_(a, num(2 ** int(b.const()))) if b.const() is not None else fn("shr", a, b, isint=True), x, y)
        if op == "<<": return lift2(lambda a, b: T.mul(a, num(2 ** int(b.const()))) if b.const() is not None else fn("shl", a, b, isint=True), x, y)
        if op in ("&", "|", "^"):
            f = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}[op]
            def g(a, b):
                if a.const() is not None and b.const() is not None: return num(f(int(a.const()), int(b.const())))
                if op == "&" and (a is ZERO or b is ZERO): return ZERO
                if op == "|" and a is ZERO: return b
                if op == "|" and b is ZERO: return a
                if op == "&" and b is ONE: return T.mod_(a, num(2))
                if op == "&":
                    for u, v in ((a, b), (b, a)):
                        c = v.const()
                        if c is not None and c > 0 and c == int(c) and int(c) & (int(c) + 1) == 0:
                            q = self.small_mod(u, int(c) + 1)
                            if q is not None: return q
                if a.id > b.id: a, b = b, a
                return fn("bit" + op, a, b, isint=True)
            return lift2(g, x, y)
        raise Unsupported("binary " + op)
    def mod_(self, a, b):
        r = self.small_mod(a, b.const())
        return T.mod_(a, b) if r is None else r
    def trunc(self, v):
        """rounding towards zero, as rounding down where the value cannot be negative"""
        def go(a, g):
            if a.hasite and len(T.cond_support(a)) <= 6:
                w = T.b_var(find_ite(a).args[0].v)
                return T.ite(w, go(assign(a, w.v, True), b_and(g, w)), go(assign(a, w.v, False), b_and(g, b_not(w))))
            if a.hasite or a.isint or a.const() is not None or g is FALSE: return lift1(T.trunc_, a)
            neg_ = T.lt(a, ZERO)
            if b_and(g, neg_) is FALSE or neg_ is FALSE: return T.floor_(a)
            return T.trunc_(a)
        return go(v, self.pc)
    def small_mod(self, t, m):
        """(counter + c) mod m where the path condition keeps the counter close to the range"""
        if m is None or m <= 1 or m > 16 or m != int(m): return None
        nc = [(mm, c) for mm, c in t.items if mm]
        if len(nc) != 1 or nc[0][1] not in (1, -1) or len(nc[0][0]) != 1 or nc[0][0][0][1] != 1: return None
        a = T._atom_list[nc[0][0][0][0]]
        l = next((l for l in self.loopstack if l.katom is a), None)
        if l is None: return None
        m = num(int(m)); F2 = T.Facts([std_facts])
        try:
            if T.sat(b_and(self.pc, T.lt(t, ZERO)), F2) or T.sat(b_and(self.pc, T.ge(t, T.add(m, m))), F2): return None
            lo = t; hi = T.sub(t, m); cut = T.lt(t, m)
            if not T.sat(b_and(self.pc, T.gt(t, m)), F2): hi = ZERO                               # only t == m wraps
            if not T.sat(b_and(self.pc, T.lt(t, T.sub(m, ONE))), F2): lo = T.sub(m, ONE)          # only t == m-1 does not
        except T.Budget: return None
        return T.ite(cut, lo, hi)
    def e_CompoundAssignOperator(self, n):
        op = n.get("opcode")[:-1]; a, b = n["inner"]
        y = self.ev(b); r = self.lv(a)
        if isinstance(r, Ref): self.event("read", r, n)
        x = self.read(r)
        lt_ = norm_type(a.get("type"))
        ct = norm_type((n.get("computeResultType") or {}).get("qualType") and n["computeResultType"]) or lt_
        v = self.binop(op, x, y, ct, n)
        if lt_ in NARROW and op in ("+", "-") and isinstance(r, Ref): self.event("count", (r, lt_), n)
        if ct in REAL_TYPES and is_int_type(lt_):
            self.event("trunc", (v, lt_), n)
            v = self.trunc(v)
        self.write(r, self.coerce(v, lt_), n)
        return r
    def e_ConditionalOperator(self, n):
        c = self.cond(n["inner"][0]); pc0 = self.pc
        lvl = n.get("valueCategory") == "lvalue"
        t = norm_type(n.get("type"))
        st = t in self.prog.records or is_vec(t)
        self.pc = b_and(pc0, c)
        a = (self.lv if lvl or st else self.ev)(n["inner"][1]) if self.pc is not FALSE else None
        self.pc = b_and(pc0, b_not(c))
        b = (self.lv if lvl or st else self.ev)(n["inner"][2]) if self.pc is not FALSE else None
        self.pc = pc0
        if a is None: return b
        if b is None: return a
        if isinstance(a, Bdd) != isinstance(b, Bdd) and isinstance(a, (Poly, Bdd)) and isinstance(b, (Poly, Bdd)): a, b = P(a), P(b)
        return self.vite(c, a, b)
    def e_LambdaExpr(self, n):
        l = Lam(n, self.frames[-1], self.frames[-1].tu)
        return l
    def e_InitListExpr(self, n):
        t = norm_type(n.get("type"))
        if t in self.prog.records or is_vec(t) or is_arr(t):
            r = self.temp(t, n); self.init_list(r, n); return r
        return self.ev(n["inner"][0]) if n.get("inner") else ZERO
    def e_CXXConstructExpr(self, n):
        t = norm_type(n.get("type"))
        args = n.get("inner", []) or []
        if "iterator" in t and len(args) == 1: return self.ev(args[0])
        if t in self.prog.records or is_vec(t):
            r = self.temp(t, n); self.construct(r, n); return r
        if (t.startswith("std::function") or t.startswith("std::_Bind") or t.startswith("(lambda at")) and len(args) == 1:
            v = self.ev(args[0])
            return v
        vals = [self.term(self.rv(a)) for a in args if isinstance(a, dict) and a.get("kind") != "CXXDefaultArgExpr"]
        if len(vals) == 1 and ("basic_string" in t) : return vals[0] if isinstance(vals[0], Poly) else fn("str", vals[0])
        return fn("new:" + t, *vals)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, (Ref, RefIte)): return self.rval_of(v, n)
        return v
    def e_CXXNewExpr(self, n):
        t = norm_type(n.get("type")); et = elem_type(t) or t[:-1]
        if n.get("isPlacement"):
            cons = None; tgt = None
            for c in n.get("inner", []):
                if isinstance(c, dict) and c.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and cons is None: cons = c
                elif isinstance(c, dict) and c: tgt = self.ev(c)
            if not isinstance(tgt, Ptr) or et not in self.prog.records: raise Unsupported("placement new")
            r = Ref(tgt.ref.pat, tgt.ref.idx, et)
            self.undef(r)
            if cons is not None: self.construct(r, cons)
            return Ptr(r)
        key = ("new", self.frames[-1].id, id(n)); self.uid(*key)
        root = "new#%d" % [k for k in self.ids if k[0] == "new"].index(key)
        r = Ref(root, (), et)
        self.event("new", (et, r), n)
        if et in self.prog.records:
            self.undef(r)
            for c in n.get("inner", []):
                if isinstance(c, dict) and c.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): self.construct(r, c)
        else:
            for c in n.get("inner", []):
                if isinstance(c, dict) and c: self.ev(c)
        return Ptr(r)
    def e_CXXDeleteExpr(self, n):
        v = self.ev(n["inner"][0])
        self.event("delete", v, n); return None
    def e_CXXThrowExpr(self, n):
        for c in n.get("inner", []): self.ev(c)
        self.event("throw", None, n); self.pc = FALSE
        return None

    # lvalues --------------------------------------------------------------
    def lv(self, n):
        k = n.get("kind")
        if k == "SynthVal": return n["val"] if isinstance(n["val"], (Ref, RefIte)) else self.as_storage(n["val"], n)
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr"): return self.lv(n["inner"][0])
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr"):
            ck = n.get("castKind")
            if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BitCast"): return self.lv(n["inner"][0])
            return self.as_storage(self.ev(n), n)
        if k == "DeclRefExpr":
            r = n.get("referencedDecl", {})
            tu = self.frames[-1].tu
            v = self.frames[-1].lookup((tu, r.get("id")))
            if v is not None: return v
            if (tu, r.get("id")) in self.prog.globals:
                g = self.prog.globals[(tu, r["id"])]
                pat = "$g:" + g.get("name", "")
                ref = Ref(pat, (), norm_type(g.get("type")))
                if pat not in self.mem.d and norm_const(g) and g.get("inner"):
                    self.mem.d[pat] = self.coerce(self.ev(g["inner"][-1]), ref.ty)
                return ref
            nm = r.get("name", "?")
            return Ref("$g:" + nm, (), norm_type(r.get("type")))
        if k == "MemberExpr":
            base = n["inner"][0]
            if n.get("isArrow"):
                p = self.ev(base)
                b = self.deref(p, n, base)
            else: b = self.lv(base)
            return self.member(b, n)
        if k == "ArraySubscriptExpr":
            a, i = n["inner"]
            x = self.ev(a)
            y = self.ev(i)
            if isinstance(y, Iter) and isinstance(x, Poly): x, y = y, x
            if isinstance(y, Bdd): y = P(y)
            et = norm_type(n.get("type"))
            if isinstance(x, Iter):
                pos = T.add(x.pos, y)
                self.access(x.ref, pos, n)
                return x.ref.at(pos, et)
            if isinstance(x, Ptr) and isinstance(x.ref, Ref):
                self.event("ptraccess", (x, y), n)
                return x.ref.at(y, et)
            return Ref("$opq%d" % self.uid("sub", id(n)), (y,) if False else (), et)
        if k == "UnaryOperator" and n.get("opcode") == "*":
            return self.deref(self.ev(n["inner"][0]), n, n["inner"][0])
        if k == "CXXThisExpr": return Ptr(self.thisref())
        v = self.ev(n)
        return self.as_storage(v, n)
    def as_storage(self, v, n):
        if isinstance(v, (Ref, RefIte)): return v
        if isinstance(v, Lam): 
            r = self.temp("lambda", n); self.mem.d[r.pat] = v; return r
        t = norm_type(n.get("type"))
        r = self.temp(t, n)
        if isinstance(v, (Poly, Bdd, Ptr, PtrIte, Iter)):
            self.mem.d[r.pat] = v
        return r
    def deref(self, p, n, base=None):
        if isinstance(p, Ptr):
            if p.ref is None:
                self.event("nullderef", None, n)
                return Ref("$null", (), elem_type(norm_type(base.get("type"))) if base else "")
            return p.ref
        if isinstance(p, PtrIte):
            # drop null alternatives
            c = b_restrict(p.c, self.pc)
            a, b = p.a, p.b
            if c is TRUE: return self.deref(a, n, base)
            if c is FALSE: return self.deref(b, n, base)
            if isinstance(a, Ptr) and a.ref is None: self.event("maynull", p, n); return self.deref(b, n, base)
            if isinstance(b, Ptr) and b.ref is None: self.event("maynull", p, n); return self.deref(a, n, base)
            return RefIte(c, self.deref(a, n, base), self.deref(b, n, base))
        if isinstance(p, Iter):
            et = elem_type(p.ref.ty) or norm_type(n.get("type"))
            self.access(p.ref, p.pos, n)
            return p.ref.at(p.pos, et)
        if isinstance(p, (Ref, RefIte)):
            v = self.read(p)
            if isinstance(v, (Ptr, PtrIte, Iter)): return self.deref(v, n, base)
        t = elem_type(norm_type(base.get("type"))) if base else ""
        return Ref("$opq%d" % self.uid("drf", id(n)), (), t or norm_type(n.get("type")))
    def member(self, b, n):
        if isinstance(b, RefIte): return RefIte(b.c, self.member(b.a, n), self.member(b.b, n))
        if isinstance(b, Ptr): b = b.ref
        nm = n.get("name"); ty = norm_type(n.get("type"))
        if not isinstance(b, Ref): return Ref("$opqm." + str(nm), (), ty)
        r = b.field(nm, ty)
        rec = self.prog.records.get(strip_ref(b.ty))
        fty = None
        if rec:
            for f, t, _ in rec["fields"]:
                if f == nm: fty = t
        if fty is not None and is_ref_type(fty):
            v = self.mem.d.get(r.pat)
            if isinstance(v, (Ref, RefIte)): return v
            r.ty = strip_ref(fty)
        elif fty is not None: r.ty = fty
        return r
    def access(self, cont, i, n):
        if isinstance(cont, RefIte): 
            self.event("access", (cont, i), n); return
        self.event("access", (cont, i), n)

    # calls ---------------------------------------------------------------
    def callee_decl(self, n):
        f = peel(n)
        while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"): f = f["inner"][0]
        return f
    def e_CallExpr(self, n):
        f = self.callee_decl(n["inner"][0]); args = n["inner"][1:]
        if f.get("kind") == "DeclRefExpr":
            r = f.get("referencedDecl", {})
            key = self.prog.keyof.get((self.frames[-1].tu, r.get("id")))
            if key is None:
                key = self.by_name(r)
            if key in self.prog.funcs:
                return self.call(self.prog.funcs[key], None, args, n)
            if r.get("kind") in ("VarDecl", "ParmVarDecl"):
                v = self.rv(f); return self.call_value(v, args, n)
            return self.builtin(r.get("name"), args, n)
        if f.get("kind") == "MemberExpr" and False: pass
        v = self.ev(f)
        return self.call_value(v, args, n)
    def by_name(self, r):
        """function defined outside the namespace"""
        nm = r.get("name"); qt = norm_type({"qualType": (r.get("type") or {}).get("qualType", "")})
        for k, f in self.prog.funcs.items():
            if f.get("name") == nm and f.get("_cls") is None and norm_type({"qualType": f.get("type", {}).get("qualType", "")}) == qt: return k
        return None
    def call_value(self, v, args, n):
        if isinstance(v, Ref): v = self.mem.d.get(v.pat, v)
        if isinstance(v, Lam): return self.call_lambda(v, args, n)
        vals = [self.argval(a) for a in args]
        self.event("call", ("(indirect)", self.term(v), vals), n, mem=True)
        return self.opaque_result("callv", [self.term(v)] + [self.term(x) for x in vals], norm_type(n.get("type")))
    def bind_member(self, args, n):
        f = peel(args[0]) if args else {}
        if f.get("kind") != "UnaryOperator" or f.get("opcode") != "&" or len(args) < 2: return None
        d = peel(f["inner"][0])
        key = self.prog.keyof.get((self.frames[-1].tu, (d.get("referencedDecl") or {}).get("id")))
        if key not in self.prog.funcs or self.prog.funcs[key].get("kind") != "CXXMethodDecl": return None
        order = []
        for a in args[2:]:
            a0 = a; a = peel(a); m = re.search(r"_Placeholder<(\d+)>", str((a.get("type") or {}).get("qualType")) + str((a.get("type") or {}).get("desugaredQualType")))
            if m: order.append(int(m.group(1)) - 1); continue
            t = strip_ref(norm_type(a.get("type")))              # a value stored in the bind expression
            if t in self.prog.records or is_vec(t):
                src = self.lv(a)
                if not isinstance(src, (Ref, RefIte)): return None
                r = self.temp(t, n); self.copy(r, src, n); order.append(self.synth(r, t))
            else: order.append(self.synth(self.rv(a0), t))
        o = self.lv(args[1])
        if isinstance(o, Ref) and o.ty.endswith("*") or not isinstance(o, (Ref, RefIte)): o = self.deref(self.ev(args[1]), n)
        if isinstance(o, Ref) and "reference_wrapper" in o.ty: return None
        b = Bind(n, self.frames[-1], self.frames[-1].tu); b.fkey = key; b.obj = o; b.order = order
        return b
    def opaque_result(self, name, args, ty):
        if ty == "void": return None
        key = (name,) + tuple(args)
        return self.fresh("%s(%s)" % (name, ",".join(show(a) if isinstance(a, Poly) else str(a) for a in args)), ty)
    def call_lambda(self, lam, args, n):
        if isinstance(lam, Bind):
            fnode = self.prog.funcs[lam.fkey]
            return self.call(fnode, lam.obj, [i if isinstance(i, dict) else args[i] for i in lam.order if isinstance(i, dict) or i < len(args)], n)
        rec = [c for c in lam.node["inner"] if c.get("kind") == "CXXRecordDecl"][0]
        op = next(c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()")
        bd = [c for c in lam.node["inner"] if c.get("kind") == "CompoundStmt"][-1]
        pseudo = {"kind": "CXXMethodDecl", "name": "lambda", "_qual": (lam.frame.fn.get("_qual", "") + "::lambda"), "_tu": lam.tu, "inner": [c for c in op["inner"] if c.get("kind") == "ParmVarDecl"] + [bd],
                  "type": op.get("type"), "id": op.get("id"), "_cls": None, "_loc": lam.node.get("_loc")}
        return self.call(pseudo, None, args, n, parent=lam.frame)
    def callable_term(self, lam, types, n):
        """what a pure callable returns for symbolic arguments: callables are compared by what they compute"""
        ne = len(self.events); ni = self.noinline; before = self.mem.d; pc = self.pc; dirty = []
        self.mem.d = dict(before); self.noinline = (); self.pc = TRUE
        try:
            refs = []
            for i, t in enumerate(types):
                base = "$callarg%d" % i
                PT.setdefault(base, t); refs.append(self.synth(Ref(base, (), t), t))
            v = self.call_lambda(lam, refs, n)
            for k, x in self.mem.d.items():
                if k[0] != "%" and k in before and before.get(k) is not x: dirty.append(k)
            if any(e.kind in ("call", "exit", "lib", "loop") for e in self.events[ne:]): dirty.append("event")
            ok = not dirty and isinstance(v, (Poly, Bdd)) and self.pc is TRUE
            return fn("callable", P(v)) if ok else self.term(lam)
        finally:
            self.mem.d = before; self.noinline = ni; self.pc = pc; del self.events[ne:]
    def call(self, fnode, this, args, n, ctor=False, parent=None):
        q = fnode.get("_qual", "")
        if not ctor and (q in self.noinline or fnode.get("_key") in self.noinline) or self.depth > 24 or any(f.fn is fnode for f in self.frames):
            return self.call_opaque(fnode, this, args, n)
        ps = params(fnode)
        # evaluate arguments in the caller
        bound = []
        dfl = self.prog.defaults.get((self.frames[-1].tu, q, len(ps), norm_type({"qualType": fnode.get("type", {}).get("qualType", "")}))) or {}
        for i, p in enumerate(ps):
            t = norm_type(p.get("type"))
            a = args[i] if i < len(args) else None
            if a is not None and a.get("kind") == "CXXDefaultArgExpr": a = (a.get("inner") or [None])[0] or dfl.get(i) or ((p.get("inner") or [None])[-1])
            if a is None: a = dfl.get(i) or ((p.get("inner") or [None])[-1])
            if a is None: bound.append(("none", None, t)); continue
            if is_ref_type(t): bound.append(("ref", self.lv(a), t))
            elif t in self.prog.records or is_vec(t): bound.append(("copy", a, t))
            else: bound.append(("val", self.coerce(self.rv(a), t), t))
        fid = "%s#%d" % (fnode.get("name", "f"), self.uid("frame", self.frames[-1].id, id(n)))
        fr = Frame(fid, fnode, parent)
        fr.rettype = ret_type(fnode); fr.retslot = None
        fr.thisref = this if parent is None else None
        if fr.tu is None: fr.tu = self.frames[-1].tu
        copies = []
        for p, (kind, v, t) in zip(ps, bound):
            if kind == "ref": fr.env[(fr.tu, p.get("id"))] = v
            else:
                r = Ref("%" + fid + "." + (p.get("name") or "_"), (), t)
                fr.env[(fr.tu, p.get("id"))] = r
                if kind == "copy":
                    self.undef(r); self.init(r, v)
                elif kind == "val": self.undef(r); self.mem.d[r.pat] = v
        self.depth += 1
        saved_ctx = self.ctxs; self.ctxs = []
        pc0 = self.pc
        self.frames.append(fr)
        if ctor:
            self.ctor_inits(fnode, this, n)
        self.statics(fnode)
        self.stmt(body(fnode))
        self.frames.pop()
        self.ctxs = saved_ctx
        self.depth -= 1
        self.pc = b_or(self.pc, fr.retpc)
        if ctor: return this
        v = fr.ret
        if isinstance(v, (Poly, Bdd)): v = under(v, self.pc)
        return v
    def effects(self, fnode):
        """patterns ($this / $p:i rooted) a function may modify (its own summary)"""
        e = self.prog.__dict__.setdefault("_effects", {})
        k = fnode["_key"]
        if k not in e:
            e[k] = None
            I = Interp(self.prog, noinline=(), unroll=0, opts=self.opts)
            I.noinline = AllBut(fnode["_qual"], fnode["_key"])
            I.writelog = {}; I.localdecl = set()
            I.summarise(fnode)
            e[k] = {p: t for p, t in I.writelog.items() if p[0] != "%" and not p.startswith("new#")}
        return e[k]
    def call_opaque(self, fnode, this, args, n):
        ps = params(fnode); vals = []; refs = {}
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            t = norm_type(p.get("type"))
            if a is None or a.get("kind") == "CXXDefaultArgExpr": vals.append(fn("default")); continue
            if is_ref_type(t):
                v = self.lv(a); refs[i] = v
                qt = (p.get("type") or {}).get("qualType", "")
                st = strip_ref(t)
                if qt.startswith("const ") and not is_vec(st) and st not in self.prog.records and not st.endswith("*"): v = self.rval_of(v, a)
            elif t in self.prog.records or is_vec(t): v = self.lv(a)
            else: v = self.rv(a)
            vals.append(v)
        kname = fnode["_qual"]
        ver = self.token(kname, vals)
        self.event("call", (fnode["_qual"], this, vals, fnode["_key"], ver), n, mem=True)
        eff = None
        try: eff = self.effects(fnode)
        except (Unsupported, KeyError, RecursionError): eff = None
        if eff is not None:
            for p, t in eff.items():
                if "->" in p and p.startswith("$this"):
                    m = re.match(r"^\$this([^\[]*?)->([^.\[]*)(.*)$", p)
                    if m and isinstance(this, Ref) and (this.pat + m.group(1)) in self.mem.d and "->" not in m.group(3):
                        for r in all_targets(self.mem.d[this.pat + m.group(1)]): self.havoc_at(Ref(r.pat + m.group(3), r.idx, t), ver)
                    elif isinstance(this, Ref): self.havoc_at(Ref(this.pat + p[5:], this.idx, t), ver)
                elif p.startswith("$this"):
                    if isinstance(this, Ref): self.havoc_at(Ref(this.pat + p[5:], this.idx, t), ver)
                elif p.startswith("$p:"):
                    m = re.match(r"\$p:(\d+)(->)?(.*)$", p)
                    i = int(m.group(1)); suf = m.group(3)
                    v = refs.get(i)
                    if m.group(2):
                        v = vals[i].ref if i < len(vals) and isinstance(vals[i], Ptr) else None
                    if isinstance(v, Ref) and v.pat[0] == "%" and not v.idx and "[*]" not in suf and not t.endswith("*"):
                        # an output argument held in a local: named after the call, not after the local
                        if self.writelog is not None: self.writelog.setdefault(v.pat + suf, t)
                        PT.setdefault(v.pat + suf, t); self.set_scalar(v.pat + suf, t, self.leaf_sym("o%s:%d%s" % (ver, i, suf), t))
                    elif isinstance(v, Ref): self.havoc_at(Ref(v.pat + suf, v.idx, t), ver)
                elif p.startswith("$g"): self.havoc(p, t, ver)
        else: self.note("opaque call %s" % kname, n)
        rt = ret_type(fnode)
        if rt == "void": return None
        if rt in self.prog.records or is_vec(rt):
            r = self.temp(rt, n)
            for s, t in self.leaves(rt): self.mem.d[r.pat + s] = V(None, TRUE, ver, self.kargs(), self.tick()) if "[*]" in s else self.havoc_val(r.pat + s, t, ver)
            return r
        if is_ref_type(rt): return Ref("$ret:" + ver, (), strip_ref(rt))
        if rt.endswith("*"): return Ptr(Ref("$ret:" + ver, (), rt[:-1].strip()))
        return self.leaf_sym("r" + ver, rt)
    def token(self, kname, vals):
        loops = tuple(r.name for r in self.loopstack)
        tkey = ("tok", kname, loops, tuple(self.valkey(v) for v in vals), self.statekey())
        c = self.occ.get(tkey)
        pcs = list(self.occ.get(("pcs", kname, loops), ()))
        if c is None:
            # the k-th call on its path: calls on exclusive paths share a token
            c = next((i for i, g in enumerate(pcs) if b_and(g, self.pc) is FALSE), len(pcs))
            self.occ[tkey] = c
        if c == len(pcs): pcs.append(FALSE)
        pcs[c] = b_or(pcs[c], self.pc); self.occ[("pcs", kname, loops)] = tuple(pcs)
        return "c:%s%s" % (kname, "#%d" % c if c else "") + "".join("@" + r.name for r in self.loopstack)
    def valkey(self, v):
        if isinstance(v, (Poly, Bdd)): return (type(v) is Poly, under(v, self.pc).id)
        if isinstance(v, Lam): return id(v.node)
        return repr(v)
    def statekey(self):
        out = []
        for p in sorted(self.mem.d):
            if p[0] == "%" : continue
            ch = self.mem.d[p]
            if isinstance(ch, (Poly, Bdd)): out.append((p, self.valkey(ch))); continue
            k = []
            while isinstance(ch, (W, V, F, C, M)):
                g = b_restrict(ch.g, self.pc)
                if g is not FALSE:
                    if isinstance(ch, W): k.append(("W", g.id, tuple(under(x, self.pc).id for x in ch.idx), self.valkey(ch.val)))
                    elif isinstance(ch, V):
                        k.append(("V", g.id, ch.ver, tuple(x.id for x in ch.ks)))
                        if g is TRUE: break
                    else: k.append((type(ch).__name__, g.id, ch.n))
                ch = ch.prev
            if k or ch is not None: out.append((p, tuple(k), repr(ch) if ch is not None else ""))
        out.append(tuple((b[0], b[1]) for b in self.mem.bases))
        return tuple(out)
    def havoc_at(self, ref, ver):
        if ref.idx or "[*]" in ref.pat:
            self.havoc(ref.pat, ref.ty, ver)
        else: self.havoc(ref.pat, ref.ty, ver)
    def e_CXXMemberCallExpr(self, n):
        m = peel(n["inner"][0]); args = n["inner"][1:]
        if m.get("kind") != "MemberExpr":
            for a in args: self.ev(a)
            return fn("opq", "memptr")
        base = m["inner"][0]
        name = m.get("name")
        key = self.prog.keyof.get((self.frames[-1].tu, m.get("referencedMemberDecl")))
        if m.get("isArrow"): this = self.deref(self.ev(base), m, base)
        else: this = self.lv(base)
        if key in self.prog.funcs:
            if isinstance(this, RefIte): this = first_ref(this); self.note("method on conditional object", n)
            f = self.prog.funcs[key]
            return self.call(f, this, args, n)
        bt = strip_ref(norm_type(base.get("type")))
        if m.get("isArrow"): bt = bt[:-1].strip() if bt.endswith("*") else bt
        return self.method(name, this, bt, args, n)
    def method(self, name, this, bt, args, n):
        ty = norm_type(n.get("type"))
        if name == "operator bool" and isinstance(this, (Ref, RefIte)) and (this.ty if isinstance(this, Ref) else first_ref_(this).ty) == "bool": return self.tobool(self.read(this))
        if isinstance(this, Ref) and is_vec(this.ty): bt = this.ty
        if isinstance(this, RefIte) and is_vec(bt):
            if name in ("size", "empty", "at", "front", "back", "begin", "end", "data"):
                a = self.method(name, this.a, bt, args, n); b = self.method(name, this.b, bt, args, n)
                return self.vite(this.c, a, b)
        if is_vec(bt) and isinstance(this, Ref): return self.vec_method(name, this, args, n)
        if is_arr(bt) and isinstance(this, Ref):
            mm = re.search(r"\[(\d+)\]$", bt) or re.search(r",\s*(\d+)\w*>$", bt)
            if name == "size" and mm: return num(int(mm.group(1)))
            if name == "at":
                i = self.ev(args[0]); self.access(this, i, n); return this.at(i, elem_type(bt))
            if name == "fill":
                self.fill(this.pat + "[*]", this.idx, None, self.ev(args[0]), elem_type(bt), n); return None
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        vals = [self.argval_any(a) for a in args]
        if isinstance(this, Ref):
            old = self.read(this)
            old = self.term(old) if not isinstance(old, Ref) else fn("obj", old.pat, *old.idx)
            tvals = [self.content(v) for v in vals]
            self.event("method", (name, this, vals, bt, old), n, mem=False)
            if not bt.startswith("std::") and any(isinstance(v, (Ref, Ptr)) for v in vals): self.ext_call(name, this, vals, args, bt, n)
            const_m = name in ("str", "c_str", "empty", "size", "length", "good", "fail", "bad", "eof", "is_open", "operator bool", "operator!", "tellg", "get_allocator", "data", "begin", "end", "find", "substr", "rdstate") and not (name == "str" and vals)
            rname = "m:" + name
            if not const_m: self.write(this, fn("s:" + name, old, *tvals), n)
            if ty == "void": return None
            if ty == "bool" or name in ("operator bool", "operator!"): return b_atom(atom("fn", rname, old, *tvals))
            if not const_m and is_ref_type(norm_type((n.get("type")))) : return this
            if n.get("valueCategory") == "lvalue" and not const_m: return this
            return fn(rname, old, *tvals, isint=is_int_type(ty))
        self.event("method", (name, this, vals, bt, None), n)
        return self.opaque_result("m:" + str(name), [self.term(v) for v in vals], ty)
    def content(self, v):
        """term for an argument of an external call: a local object is denoted by what it holds"""
        r = v.ref if isinstance(v, Ptr) else v
        if not isinstance(r, Ref) or r.pat[0] != "%": return self.term(v)
        out = []
        for s, t in self.leaves(r.ty):
            if "[*]" in s or t.endswith("*"): continue
            x = self.read(Ref(r.pat + s, r.idx, t))
            out.append(self.term(x))
        return fn("&local", *out)
    def ext_call(self, name, this, vals, args, bt, n):
        """call of a method of an external class: state of the arguments is compared, non-const reference arguments are overwritten"""
        k = "ext:" + bt + "::" + name
        ver = self.token(k, [v for v in vals if not (isinstance(v, (Ref, Ptr)) and "%" in repr(v))])
        self.event("call", (k, this, vals, "ext", ver), n, mem=True)
        for v, a in zip(vals, args):
            while a.get("kind") == "ParenExpr": a = a["inner"][0]
            if isinstance(v, Ref) and a.get("valueCategory") == "lvalue" and not str((a.get("type") or {}).get("qualType", "")).startswith("const "):
                for s, t in self.leaves(v.ty): self.havoc_at(Ref(v.pat + s, v.idx, t), ver)
    def argval_any(self, a):
        v = self.ev(a)
        t = strip_ref(norm_type(a.get("type")))
        if isinstance(v, (Ref, RefIte)) and not (t in self.prog.records or is_vec(t)) and a.get("valueCategory") != "lvalue": return self.rval_of(v, a)
        return v
    def vec_method(self, name, this, args, n):
        et = elem_type(this.ty)
        sz = this.field("$size", "unsigned long")
        if name == "size":
            self.event("read", sz, n)
            return self.read(sz)
        if name == "empty": return T.eq(self.read(sz), ZERO)
        if name in ("begin", "cbegin", "data"): return Iter(this, ZERO)
        if name in ("end", "cend"): return Iter(this, self.read(sz))
        if name == "at":
            i = self.ev(args[0]); self.event("at", (this, i), n); return this.at(i, et)
        if name == "front": self.access(this, ZERO, n); return this.at(ZERO, et)
        if name == "back":
            i = T.sub(self.read(sz), ONE); self.access(this, i, n); return this.at(i, et)
        if name == "clear": self.event("clear", this, n); self.write(sz, ZERO, n); return None
        if name in ("reserve", "shrink_to_fit"):
            for a in args: self.ev(a)
            return None
        if name == "pop_back": self.write(sz, T.sub(self.read(sz), ONE), n); return None
        if name in ("push_back", "emplace_back"):
            i = self.read(sz)
            dst = this.at(i, et)
            if len(args) == 1 and (name == "push_back" or True):
                a = args[0]; pa = peel(a)
                self.event("push", (this, i), n)
                if et in self.prog.records or is_vec(et): self.init(dst, a)
                else: self.write(dst, self.coerce(self.rv(a), et), n)
            else: self.note("emplace_back", n)
            self.write(sz, T.add(i, ONE), n)
            return None
        if name == "resize":
            k = self.ev(args[0]); old = self.read(sz)
            self.event("resize", (this, k, old), n)
            va = args[1] if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr" else None
            if old.const() == 0: self.vec_fill(this, k, None, va, n)
            elif T.le(k, old) is not TRUE: self.vec_fill(this, k, old, va, n)
            self.write(sz, k, n); return None
        if name == "assign" and len(args) == 2:
            a = self.ev(args[0])
            if isinstance(a, Poly):
                self.event("resize", (this, a, self.read(sz)), n)
                self.vec_fill(this, a, None, args[1], n); self.write(sz, a, n); return None
            b = self.ev(args[1])
            if isinstance(a, Iter) and isinstance(b, Iter) and a.pos is ZERO and isinstance(a.ref, Ref):
                self.copy(this, a.ref, n); self.write(sz, b.pos, n); return None
        if name == "swap":
            o = self.lv(args[0]); tmp = self.temp(this.ty, n)
            self.copy(tmp, this, n); self.copy(this, o, n); self.copy(o, tmp, n); return None
        for a in args: self.ev(a)
        self.note("vector method " + name, n)
        for s, t in self.leaves(this.ty): self.havoc(this.pat + s, t, "vm%d" % self.uid("vm", id(n)))
        return fn("opq", "vm" + name)
    def e_CXXOperatorCallExpr(self, n):
        f = self.callee_decl(n["inner"][0]); args = n["inner"][1:]
        r = f.get("referencedDecl", {}) or {}
        name = r.get("name") or ""
        key = self.prog.keyof.get((self.frames[-1].tu, r.get("id")))
        bt = strip_ref(norm_type(args[0].get("type"))) if args else ""
        if name == "operator()":
            o = self.lv(args[0])
            v = o if isinstance(o, Lam) else self.mem.d.get(o.pat) if isinstance(o, Ref) else None
            if isinstance(v, Lam): return self.call_lambda(v, args[1:], n)
        if key in self.prog.funcs:
            fnode = self.prog.funcs[key]
            if fnode.get("kind") == "CXXMethodDecl":
                this = self.lv(args[0])
                return self.call(fnode, this, args[1:], n)
            return self.call(fnode, None, args, n)
        if name == "operator[]":
            c = self.lv(args[0]); i = self.ev(args[1])
            if isinstance(i, Bdd): i = P(i)
            return self.index(c, i, n, bt)
        if name == "operator=":
            if bt in self.prog.records or is_vec(bt):
                src = self.lv(args[1]); dst = self.lv(args[0])
                if isinstance(src, (Ref, RefIte)): self.copy(dst, src, n)
                return dst
            v = self.rv(args[1]); dst = self.lv(args[0])
            self.write(dst, v if isinstance(v, (Poly, Bdd, Ptr, PtrIte, Iter, Lam)) else self.term(v), n)
            return dst
        if name == "operator()":
            o = self.lv(args[0])
            v = self.mem.d.get(o.pat) if isinstance(o, Ref) else None
            if isinstance(v, Lam): return self.call_lambda(v, args[1:], n)
            vals = [self.argval(a) for a in args[1:]]
            self.event("call", ("operator()", o, vals, bt), n, mem=True)
            return self.opaque_result("op()", [self.term(o)] + [self.term(x) for x in vals], norm_type(n.get("type")))
        if "iterator" in bt or isinstance(None, int):
            x = self.rv(args[0])
            if name in ("operator++", "operator--"):
                rr = self.lv(args[0]); old = self.read(rr)
                d = ONE if name == "operator++" else num(-1)
                self.write(rr, Iter(old.ref, T.add(old.pos, d)) if isinstance(old, Iter) else old, n)
                return old if len(args) > 1 else rr
            if name in ("operator*", "operator->") and len(args) == 1:
                return self.deref(x, n) if name == "operator*" else Ptr(self.deref(x, n))
            if len(args) == 2:
                y = self.rv(args[1])
                if name in ("operator+=", "operator-="):
                    v = self.binop(name[8], x, y, "", n); self.write(self.lv(args[0]), v, n); return v
                return self.binop(name[8:], x, y, "bool", n)
        if name in ("operator<<", "operator>>") and len(args) == 2:
            o = self.lv(args[0])
            if name == "operator>>":
                old = self.read(o) if isinstance(o, Ref) else fn("opq", "in")
                man = peel(args[1])
                if "(" in str((man.get("type") or {}).get("qualType", "")):
                    while man.get("kind") != "DeclRefExpr" and man.get("inner"): man = man["inner"][0]
                    nm = ((man.get("referencedDecl") or {}).get("name")) or "?"
                    self.event("manip", (o, nm), n)
                    if isinstance(o, Ref): self.write(o, fn(">>" + nm, self.term(old)), n)
                    return o
                d = self.lv(args[1])
                self.event("extract", (o, d), n)
                if isinstance(d, (Ref, RefIte)):
                    t = first_ref(d).ty
                    v = self.fresh("in(%s)" % (first_ref(o).pat if isinstance(o, (Ref, RefIte)) else "?"), t)
                    self.write(d, v, n)
                if isinstance(o, Ref): self.write(o, fn(">>", self.term(old)), n)
                return o
            v = self.argval_any(args[1])
            if isinstance(v, (Ref, RefIte)) and not (strip_ref(first_ref(v).ty) in self.prog.records): v = self.rval_of(v, n)
            self.event("insert", (o, v), n)
            if isinstance(o, Ref): self.write(o, fn("<<", self.term(self.read(o)), self.term(v)), n)
            return o
        if name in ("operator+=", "operator-=", "operator*=", "operator/=", "operator|=", "operator&=", "operator^=") and args[0].get("valueCategory") == "lvalue":
            o = self.lv(args[0])
            if isinstance(o, Ref):
                x = self.term(self.rv(args[1]))
                self.write(o, fn(name, self.term(self.read(o)), x), n)
                return o
        vals = [self.term(self.rv(a)) for a in args]
        t = norm_type(n.get("type"))
        if t == "bool": return b_atom(atom("fn", name, *vals))
        return fn(name, *vals)
    def index(self, c, i, n, bt):
        if isinstance(c, RefIte): return RefIte(c.c, self.index(c.a, i, n, bt), self.index(c.b, i, n, bt))
        if not isinstance(c, Ref):
            return Ref("$opqi", (i,) if False else (), norm_type(n.get("type")))
        if "iterator" in bt:
            v = self.read(c)
            if isinstance(v, Iter):
                pos = T.add(v.pos, i); self.access(v.ref, pos, n); return v.ref.at(pos, elem_type(v.ref.ty))
        self.access(c, i, n)
        et = elem_type(c.ty) or strip_ref(norm_type(n.get("type")))
        return c.at(i, et)
    def builtin(self, name, args, n):
        ty = norm_type(n.get("type"))
        if not args and name in ("max", "min", "epsilon", "lowest", "infinity"):
            if ty in ("double", "float", "long double"):
                return num({"max": T.HUGE, "infinity": T.HUGE * 10, "lowest": -T.HUGE, "min": T.Fraction(1, 2 ** 1022), "epsilon": T.Fraction(1, 2 ** 52)}[name])
            if ty in ("unsigned int", "unsigned"): return num(2 ** 32 - 1 if name == "max" else 0)
            if ty == "int": return num(2 ** 31 - 1 if name == "max" else -2 ** 31)
        if name in ("max", "min", "fmax", "fmin") and len(args) == 2:
            a = P(self.rv(args[0])); b = P(self.rv(args[1]))
            return T.ite(T.lt(a, b), b, a) if "max" in name else T.ite(T.lt(b, a), b, a)
        if name in ("abs", "fabs", "labs"):
            a = P(self.rv(args[0]))
            if ty in INT_TYPES and strip_ref(norm_type(peel_casts(args[0]).get("type"))) in REAL_TYPES: self.event("intabs", a, n)
            return T.ite(T.lt(a, ZERO), T.neg(a), a)
        if name in ("sqrt", "sqrtf"):
            a = P(self.rv(args[0])); self.event("sqrt", a, n); return T.sqrt_(a)
        if name == "hypot":
            a = P(self.rv(args[0])); b = P(self.rv(args[1])); return T.sqrt_(T.add(T.mul(a, a), T.mul(b, b)))
        if name == "pow":
            a = P(self.rv(args[0])); b = P(self.rv(args[1]))
            c = b.const()
            if c is not None and c.denominator == 1 and 0 <= c <= 8: return T.power(a, int(c))
            if c is not None and c.denominator == 1 and -8 <= c < 0: return T.inv(T.power(a, int(-c)))
            if c is not None and c == T.Fraction(1, 2): return T.sqrt_(a)
            if b.isint and a.const() == 2: return fn("shl", ONE, b, isint=True)
            return fn("pow", a, b)
        if name in ("floor", "floorf"): return lift1(T.floor_, P(self.rv(args[0])))
        if name == "trunc": return self.trunc(P(self.rv(args[0])))
        if name in ("ceil", "round", "rint", "lround", "nearbyint"):
            return lift1(lambda x: x if x.isint else fn(name, x, isint=True), P(self.rv(args[0])))
        if name in ("move", "forward", "ref", "cref"):
            return self.lv(args[0])
        if name == "swap":
            a = self.lv(args[0]); b = self.lv(args[1])
            t = strip_ref(first_ref(a).ty)
            if t in self.prog.records or is_vec(t):
                tmp = self.temp(t, n); self.copy(tmp, a, n); self.copy(a, b, n); self.copy(b, tmp, n)
            else:
                x = self.read(a); y = self.read(b); self.write(a, y, n); self.write(b, x, n)
            return None
        if name in ("fill", "fill_n", "copy", "iota", "sort", "reverse", "accumulate", "count_if", "count", "find", "min_element", "max_element", "any_of", "all_of", "none_of", "for_each", "transform", "stable_sort", "rotate", "begin", "end"):
            return self.algorithm(name, args, n, ty)
        if name in ("exit", "abort", "_Exit", "quick_exit", "terminate"):
            vals = [self.ev(a) for a in args]
            self.event("exit", (name, vals), n); self.pc = FALSE
            return None
        if name == "spec_assume":
            self.event("assume", self.cond(args[0]), n)
            return None
        if name == "__errno_location": return Ptr(Ref("$errno", (), "int"))
        if name == "isnan" or name == "isfinite" or name == "isinf":
            return b_atom(atom("fn", name, P(self.rv(args[0]))))
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if name == "bind":
            b = self.bind_member(args, n)
            if b is not None: return b
        vals = []
        for a in args:
            v = self.argval_any(a); vals.append(v)
        self.event("lib", (name, vals), n)
        if name == "bind": 
            return fn("bind", *[self.term(v) for v in vals])
        if name in ("strerror",): return fn(name)
        if name in ("fprintf", "printf", "fclose", "fputs", "fwrite", "fread", "fflush", "remove", "rename", "fscanf", "puts", "perror"):
            return self.opaque_result(name, [], ty)
        if name == "fopen":
            k = self.occ[("fopen",) + tuple(r.name for r in self.loopstack)] = self.occ.get(("fopen",) + tuple(r.name for r in self.loopstack), -1) + 1
            return Ptr(Ref("$file->%d%s" % (k, "".join("@" + r.name for r in self.loopstack)), (), "FILE"))
        if name == "getline":
            s = self.lv(args[1])
            if isinstance(s, Ref): self.write(s, self.fresh("getline", s.ty), n)
            o = self.lv(args[0])
            if isinstance(o, Ref): self.write(o, fn(">>line", self.term(self.read(o))), n)
            return o
        return self.opaque_result("lib:" + str(name), [self.term(v) for v in vals], ty)
    def algorithm(self, name, args, n, ty):
        if name in ("begin", "end"):
            r = self.lv(args[0])
            if is_vec(r.ty): return self.vec_method(name, r, [], n)
            m = re.search(r"\[(\d+)\]$", r.ty)
            return Iter(r, ZERO if name == "begin" else (num(int(m.group(1))) if m else fn("opq", "arrsize")))
        vals = [self.rv(a) for a in args]
        a = vals[0]; b = vals[1] if len(vals) > 1 else None
        self.event("lib", (name, vals), n)
        if not isinstance(a, Iter) or not isinstance(a.ref, Ref):
            self.note("algorithm " + name, n); return self.opaque_result(name, [], ty) if ty != "void" else None
        et = elem_type(a.ref.ty)
        whole = a.pos is ZERO
        if name in ("fill", "fill_n") and et not in self.prog.records:
            v = self.coerce(vals[2], et)
            size = self.read(a.ref.field("$size", "unsigned long")) if is_vec(a.ref.ty) else None
            m = re.search(r"\[(\d+)\]$", a.ref.ty)
            if m and size is None: size = num(int(m.group(1)))
            upto = (b.pos if isinstance(b, Iter) else None) if name == "fill" else b
            if whole and isinstance(v, (Poly, Bdd)) and (size is None or isinstance(upto, Poly) and T.sub(upto, size) is ZERO):
                # fill of a complete container
                self.fill(a.ref.pat + "[*]", a.ref.idx, None, v, et, n); return None
        if name in ("copy", "transform") and len(vals) >= 3 and isinstance(vals[2], Iter) and name == "copy" and whole and vals[2].pos is ZERO:
            d = vals[2].ref
            for s, t in self.leaves(et):
                sp = a.ref.pat + "[*]" + s; dp = d.pat + "[*]" + s
                if self.writelog is not None: self.writelog.setdefault(dp, t)
                PT.setdefault(dp, t)
                self.mem.d[dp] = C(self.mem.d.get(dp), self.pc, d.idx, sp, self.mem.d.get(sp), a.ref.idx, self.curloc, self.tick())
                self.event("copy", (Ref(dp, d.idx, t), Ref(sp, a.ref.idx, t)), n)
            return vals[2]
        r = self.algorithm_loop(name, args, vals, a, b, n, ty)
        if r is not NotImplemented: return r
        if name in ("sort", "stable_sort", "reverse", "rotate", "iota", "fill", "fill_n", "transform", "for_each"):
            okey = ("alg", name); c = self.occ[okey] = self.occ.get(okey, -1) + 1
            tgt = vals[2] if name == "transform" and len(vals) > 2 and isinstance(vals[2], Iter) else a
            if name in ("sort", "stable_sort") and len(vals) > 2 and isinstance(vals[2], Lam): vals[2] = self.callable_term(vals[2], [et, et], n)
            self.event("call", ("std::" + name, tgt.ref, vals), n, mem=True)
            for s, t in self.leaves(elem_type(tgt.ref.ty)): self.havoc(tgt.ref.pat + "[*]" + s, t, "c:%s%d" % (name, c))
            if name not in ("sort", "stable_sort", "reverse"): self.note("algorithm " + name, n)
            return None
        return self.opaque_result(name, [self.term(v) for v in vals if not isinstance(v, Lam)], ty)

    def synth(self, v, ty): return {"kind": "SynthVal", "val": v, "type": {"qualType": ty}, "valueCategory": "lvalue" if isinstance(v, (Ref, RefIte)) else "prvalue"}
    def algorithm_loop(self, name, args, vals, a, b, n, ty):
        """standard algorithms as the loops they stand for"""
        if not isinstance(a, Iter) or not isinstance(a.ref, Ref): return NotImplemented
        et = elem_type(a.ref.ty); two = isinstance(b, Iter) and isinstance(b.ref, Ref) and b.ref.pat == a.ref.pat
        U = self.uid("alg", self.frames[-1].id, id(n)); base = "%" + self.frames[-1].id + "."
        def local(nm, t, v):
            r = Ref(base + "$%s%d" % (nm, U), (), t); self.undef(r); self.write(r, v, n); return r
        def elem(it, k):
            r = it.ref.at(k, elem_type(it.ref.ty)); self.access(it.ref, k, n); return r
        def fcall(f, *vs):
            fr = self.frames[-1]
            return self.call_lambda(f, [self.synth(v, v.ty if isinstance(v, Ref) else "double") for v in vs], n)
        def val(r): return r if r.ty in self.prog.records or is_vec(r.ty) else r
        def cb(i): 
            v = vals[i]
            if isinstance(v, Ref): v = self.mem.d.get(v.pat, v)
            return v if isinstance(v, Lam) else None
        def run(lo, hi, body):
            k = local("k", "long", lo)
            self.loop(n, lambda: T.lt(self.read(k), hi), lambda: body(self.read(k)), lambda: self.write(k, T.add(self.read(k), ONE), n))
        if name in ("iota", "fill") and two and len(vals) == 3 and et not in self.prog.records and not is_vec(et):
            v = self.coerce(vals[2], et)
            if not isinstance(v, (Poly, Bdd)): return NotImplemented
            run(a.pos, b.pos, lambda k: self.write(elem(a, k), T.add(P(v), T.sub(k, a.pos)) if name == "iota" else v, n)); return None
        if name == "fill_n" and len(vals) == 3 and et not in self.prog.records and not is_vec(et):
            v = self.coerce(vals[2], et); cnt = P(vals[1])
            if not isinstance(v, (Poly, Bdd)): return NotImplemented
            run(a.pos, T.add(a.pos, cnt), lambda k: self.write(elem(a, k), v, n)); return Iter(a.ref, T.add(a.pos, cnt))
        if not two: return NotImplemented
        if name == "for_each" and len(vals) == 3 and cb(2):
            f = cb(2); run(a.pos, b.pos, lambda k: fcall(f, elem(a, k))); return None
        if name == "transform" and len(vals) == 4 and cb(3) and isinstance(vals[2], Iter):
            f = cb(3); d = vals[2]
            def bd(k):
                v = fcall(f, elem(a, k)); self.write(elem(d, T.add(d.pos, T.sub(k, a.pos))), self.coerce(v, elem_type(d.ref.ty)), n)
            if elem_type(d.ref.ty) in self.prog.records: return NotImplemented
            run(a.pos, b.pos, bd); return Iter(d.ref, T.add(d.pos, T.sub(b.pos, a.pos)))
        if name == "copy" and len(vals) == 3 and isinstance(vals[2], Iter) and et not in self.prog.records and not is_vec(et):
            d = vals[2]
            run(a.pos, b.pos, lambda k: self.write(elem(d, T.add(d.pos, T.sub(k, a.pos))), self.read(elem(a, k)), n)); return Iter(d.ref, T.add(d.pos, T.sub(b.pos, a.pos)))
        if name == "accumulate" and len(vals) in (3, 4) and (len(vals) == 3 or cb(3)):
            t = strip_ref(norm_type(args[2].get("type")))
            if t in self.prog.records or is_vec(t): return NotImplemented
            acc = local("acc", t, self.coerce(vals[2], t))
            def bd(k):
                e = elem(a, k)
                v = self.binop("+", self.read(acc), self.read(e), t, n) if len(vals) == 3 else fcall(cb(3), acc, e)
                self.write(acc, self.coerce(v, t), n)
            run(a.pos, b.pos, bd); return self.read(acc)
        if name in ("any_of", "all_of", "none_of", "count_if") and cb(2) or name == "count" and len(vals) == 3 and et not in self.prog.records:
            acc = local("acc", "long" if name.startswith("count") else "bool", ZERO if name.startswith("count") else FALSE if name == "any_of" else TRUE)
            def bd(k):
                e = elem(a, k)
                c = self.truth(fcall(cb(2), e)) if name != "count" else T.eq(P(self.read(e)), P(vals[2]))
                o = self.read(acc)
                if name.startswith("count"): v = T.add(o, P(c))
                else: v = b_or(o, c) if name == "any_of" else b_and(o, c) if name == "all_of" else b_and(o, b_not(c))
                self.write(acc, v, n)
            run(a.pos, b.pos, bd); return self.read(acc)
        if name in ("max_element", "min_element") and len(vals) == 2 and et not in self.prog.records:
            m = local("m", "long", a.pos)
            def bd(k):
                x = P(self.read(elem(a, self.read(m)))); y = P(self.read(elem(a, k)))
                c = T.lt(x, y) if name == "max_element" else T.lt(y, x)
                self.write(m, self.vite(c, k, self.read(m)), n)
            run(T.add(a.pos, ONE), b.pos, bd); return Iter(a.ref, self.read(m))
        return NotImplemented
    def e_SynthVal(self, n):
        v = n["val"]
        return self.rval_of(v, n) if isinstance(v, (Ref, RefIte)) else v

# ---------------------------------------------------------------- helpers
def polydiv(n, d):
    """exact polynomial quotient n/d or None"""
    if not d.items: return None
    def deg(m): return (sum(e for _, e in m), m)
    ld = max(d.items, key=lambda t: deg(t[0]))
    q = ZERO; r = n; it = 0
    while r.items and it < 50:
        it += 1
        lr = max(r.items, key=lambda t: deg(t[0]))
        m = dict(lr[0])
        for a, e in ld[0]: m[a] = m.get(a, 0) - e
        if any(e < 0 for e in m.values()): return None
        t = T._mk({tuple(sorted((a, e) for a, e in m.items() if e)): lr[1] / ld[1]})
        q = T.add(q, t); r = T.sub(r, T.mul(t, d))
    return q if not r.items else None
def ty_of(d): return strip_ref(norm_type(d.get("type")))
def clean_cond(c, name): return isinstance(c, Bdd) and not any("φ" + name in str(a.args[0]) for a in all_syms(c))
def inverse(inv, idx, sm):
    if inv[0] == "aff":
        kv = T.sub(idx[inv[1]], T.subst(inv[3], sm) if sm else inv[3])
        return (kv if inv[2] > 0 else T.neg(kv)), TRUE
    a = T.subst(inv[3], sm) if sm else inv[3]
    q, d = idx[inv[1]], idx[inv[2]]
    return T.add(q, T.mul(d, a)), b_and(T.ge(q, ZERO), b_and(T.lt(q, a), T.ge(d, ZERO)))
_asy = {}
def all_syms(t):
    """all lp / versioned rd atoms anywhere inside a term"""
    if isinstance(t, Bdd):
        k = ("b", t.id)
        r = _asy.get(k)
        if r is None:
            s = set()
            for i in b_support(t):
                cv = T.condvar(i)
                s |= all_syms(cv.p if cv.p is not None else cv.a)
            r = _asy[k] = frozenset(s)
        return r
    if isinstance(t, Poly):
        k = ("p", t.id); r = _asy.get(k)
        if r is None:
            s = set()
            for m, c in t.items:
                for ai, e in m: s |= all_syms(T._atom_list[ai])
            r = _asy[k] = frozenset(s)
        return r
    if isinstance(t, Atom):
        k = ("a", t.id); r = _asy.get(k)
        if r is None:
            s = set()
            if t.kind == "lp" or (t.kind == "rd" and t.args[1]): s.add(t)
            for x in t.args:
                if isinstance(x, (Poly, Bdd, Atom)): s |= all_syms(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Poly, Bdd, Atom)): s |= all_syms(y)
            r = _asy[k] = frozenset(s)
        return r
    return frozenset()
def all_loops(ls):
    for l in ls:
        yield l
        for c in all_loops(l.children): yield c
def first_ref(r):
    while isinstance(r, RefIte): r = r.a
    return r
def norm_const(d): return "const" in (d.get("type", {}).get("qualType", "").split() ) or d.get("constexpr")
def peel(e):
    while e.get("kind") in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr") or (e.get("kind") == "ImplicitCastExpr" and e.get("castKind") in ("NoOp", "ConstructorConversion") ) or (e.get("kind") in ("CXXConstructExpr",) and e.get("elidable")):
        i = [c for c in e.get("inner", []) if isinstance(c, dict)]
        if not i: return e
        e = i[0]
    return e
def peel_casts(e):
    while e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"): e = e["inner"][0]
    return e
def find_kind(e, k):
    if e.get("kind") == k: return e
    for c in e.get("inner", []) or []:
        if isinstance(c, dict):
            r = find_kind(c, k)
            if r is not None: return r
    return None
def ret_type(f):
    q = (f.get("type") or {}).get("qualType", "void ()")
    # text before the parameter list
    d = 0; i = len(q) - 1
    m = re.match(r"^auto .*-> (.*)$", q)
    if m: return norm_type({"qualType": m.group(1)})
    depth = 0
    for i, ch in enumerate(q):
        if ch == "<": depth += 1
        elif ch == ">": depth -= 1
        elif ch == "(" and depth == 0: return norm_type({"qualType": q[:i].strip()})
    return norm_type({"qualType": q})
def lift1(f, a):
    if not a.hasite: return f(a)
    if len(T.cond_support(a)) > T.LIFT_LIMIT: return fn("opq", f.__name__, a)
    v = find_ite(a).args[0].v
    return T.ite(T.b_var(v), lift1(f, assign(a, v, True)), lift1(f, assign(a, v, False)))
def lift2(f, a, b):
    if not a.hasite and not b.hasite: return f(a, b)
    if len(T.cond_support(a) | T.cond_support(b)) > T.LIFT_LIMIT: return fn("opq", "op2", a, b)
    v = (find_ite(a) or find_ite(b)).args[0].v
    return T.ite(T.b_var(v), lift2(f, assign(a, v, True), assign(b, v, True)), lift2(f, assign(a, v, False), assign(b, v, False)))
def is_nonneg_atom(a):
    if a.kind == "rd":
        t = PT.get(a.args[0], "")
        return is_unsigned(t) or a.args[0].endswith("$size")
    if a.kind == "lp":
        t = SYMTY.get(a.args[0], ""); return is_unsigned(t)
    if a.kind == "sym": return a.args[0].startswith("k_")
    if a.kind == "fn" and a.args[0] in ("mod", "idiv", "size"): return True
    if a.kind == "fn" and a.args[0] == "trunc": return False
    return False
def std_facts(a):
    """type facts: unsigned storage, sizes, counters are >= 0"""
    if is_nonneg_atom(a): return [of_atom(a)], []
    return None

def first_ref_(r):
    while isinstance(r, RefIte): r = r.a
    return r
