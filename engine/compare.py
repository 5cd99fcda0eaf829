"""Value-flow equivalence of two summaries (implementation against reference).

Loops are put in correspondence, their carried state is matched, and every observable
(final storage, return value, termination guard, calls to non-inlined operations) is
compared for equality in all feasible cases.  Only definite differences are findings;
structural mismatches that the correspondence cannot bridge are `undecided`."""
import re, itertools, os, json
DBG = os.environ.get("SLSM_DBG")
from terms import *
import terms as T
from front import field_reads
import interp as IN
from interp import *

# data members of the library's classes in the analysed version: storage in members added later is private to the
# implementation (never compared), and values read from it cannot be compared with the reference
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.json")) as _f: KNOWN = {x for v in json.load(_f).values() for x in v}
def new_member(p): return any(x not in KNOWN for x in re.findall(r"(?:\.|->)([A-Za-z_]\w*)", LOOPRE.sub("", p))) if p.startswith("$") else False
class Finding:
    def __init__(self, text, loc, where="", path=""): self.text = text; self.loc = loc; self.where = where; self.path = path
    def __repr__(self): return "%s: %s%s" % (self.loc, self.text, (" [when %s]" % self.path) if self.path else "")
class Undecided(Exception): pass

LOOPRE = re.compile(r"L\d+(?:'\d+)?(?:\.L\d+(?:'\d+)?)*")
LOCRE = re.compile(r"%[\w#~.$]+|\$p:\d+")
class Scaled:
    """the implementation's accumulator is the reference's times a loop-invariant factor"""
    def __init__(self, f): self.f = f
def content(p, memo=None):
    """factors (atom -> exponent) common to every non-zero case of a term"""
    res = None
    for m, c in p.items:
        d = {}
        for ai, e in m:
            at = T._atom_list[ai]
            if at.kind == "ite" and e == 1:
                for q in at.args[1:]:
                    if not isinstance(q, Poly): return {}
                l = [content(q) for q in at.args[1:] if q is not ZERO]
                x = l[0] if len(l) == 1 else common(*l) if l else {}
                for k, v in x.items(): d[k] = d.get(k, 0) + v
            else: d[at] = d.get(at, 0) + e
        res = d if res is None else common(res, d)
    return res or {}
def common(x, y):
    r = {}
    for k in x:
        if k in y and (x[k] > 0) == (y[k] > 0): r[k] = min(x[k], y[k], key=abs)
    return r
def some_leaf(p):
    for n in range(40):
        v = next((T._atom_list[ai] for m, c in p.items for ai, e in m if T._atom_list[ai].kind == "ite"), None)
        if v is None: return p
        x = v.args[1] if v.args[1] is not ZERO else v.args[2]
        if not isinstance(x, Poly): return None
        p = T.replace_atom(p, v, x)
    return None
class Renamer(T.Rewriter):
    def __init__(self, loops, locs, consts=None): super().__init__(); self.loops = loops; self.locs = locs; self.consts = consts or {}
    def atom_(self, a):
        if a.kind == "lp" and a.args[0] in self.consts:
            v = self.consts[a.args[0]]
            if isinstance(v, Scaled): return T.mul(self.rebuild(a), v.f)
            return v if isinstance(v, Poly) else P(v)
        return None
    def cond_(self, i):
        cv = T._cvlist[i]
        if cv.kind == "b" and cv.a.kind == "lp" and cv.a.args[0] in self.consts: return self.consts[cv.a.args[0]]
        return None
    def s(self, x):
        if not self.loops and not self.locs: return x
        if x and x[0] in "φω":
            i = x.find(":")
            if i > 0:
                q = self.locs.get((x[1:i], x[i + 1:]))
                if q is not None: return x[0] + self.loops.get(x[1:i], x[1:i]) + ":" + q
        y = LOOPRE.sub(lambda m: self.loops.get(m.group(0), m.group(0)), x) if "L" in x else x
        if self.locs: y = LOCRE.sub(lambda m: self.locs.get(m.group(0), m.group(0)), y)
        return y
    def rebuild(self, a):
        args = tuple(self.s(x) if isinstance(x, str) else self.val(x) for x in a.args)
        if args == a.args: return of_atom(a)
        if a.kind == "lp": IN.SYMTY.setdefault(args[0], IN.SYMTY.get(a.args[0], ""))
        if a.kind == "rd": IN.PT.setdefault(args[0], IN.PT.get(a.args[0], ""))
        return T.mk_atom(a.kind, args, a.isint)

class ModExpand(T.Rewriter):
    """mod(t, m) with t known to be close to [0, m) by its shape: case split on the quotient"""
    def atom_(self, a):
        if a.kind != "fn" or a.args[0] not in ("mod", "idiv"): return None
        t = self.val(a.args[1]); m = self.val(a.args[2])
        if not isinstance(t, Poly) or not isinstance(m, Poly) or t.hasite or m.hasite: return None
        nest = any(T._atom_list[ai].kind == "fn" and T._atom_list[ai].args[0] in ("mod", "idiv") for mm, c in t.items for ai, e in mm)
        if not nest:
            nc = [(mm, c) for mm, c in t.items if mm]
            if m.const() is None or m.const() <= 0 or len(nc) != 1 or nc[0][1] != 1 or len(nc[0][0]) != 1 or nc[0][0][0][1] != 1: return None
        md = a.args[0] == "mod"
        g = (lambda q: sub(t, T.mul(num(q), m))) if md else (lambda q: num(q))
        base = T.mod_(t, m) if md else T.idiv_(t, m)
        r = base
        for q in (1, 0, -1) if nest else (1, 0):
            lo = T.mul(num(q), m)
            r = T.ite(b_and(T.ge(t, lo), T.lt(t, add(lo, m))), g(q), r)
        return r
_modexp = ModExpand()
class Find(T.Rewriter):
    def __init__(self, pred): super().__init__(); self.pred = pred; self.hit = set()
    def atom_(self, a):
        if self.pred(a): self.hit.add(a)
        return None
def find_atoms(t, pred):
    f = Find(pred); f.val(t); return f.hit
def is_un(a): return a.kind == "fn" and a.args[0] == "uninit"

def nonlocal_(p): return p[0] != "%" and p != "$errno" and not p.startswith(("$opq", "$null", "$g:"))
def is_local(p): return p[0] == "%" or re.match(r"^\$p:\d+$", p) is not None

class NextIter(T.Rewriter):
    """a term of the loop body in a later iteration that starts in the state this one ends in (or, end=False, starts in)"""
    def __init__(self, X, l, k2, end=True): super().__init__(); self.X = X; self.l = l; self.k2 = k2; self.end = end; self.pre = "φ" + l.name + ":"
    def state(self, p):
        l = self.l
        if p in l.promoted:
            m = self.X.mem; self.X.mem = l.end
            try: return self.X.read(Ref(p, l.promoted[p], l.mod[p]), pc=TRUE)
            finally: self.X.mem = m
        v = l.end.d.get(p)
        return v if isinstance(v, (Poly, Bdd)) else None
    def skip(self, a): return False
    def atom_(self, a):
        if a is self.l.katom: return self.k2
        if a.kind == "lp" and a.args[0].startswith(self.pre):
            if not self.end: return of_atom(a)
            v = self.state(a.args[0][len(self.pre):])
            return P(v) if v is not None else None
        if a.kind == "rd" and a.args[1] == "φ" + self.l.name:
            idx = tuple(self.val(x) for x in a.args[2])
            if not self.end: return T.mk_atom("rd", (a.args[0], a.args[1], idx) + tuple(a.args[3:]), a.isint)
            m = self.X.mem; self.X.mem = self.l.end
            try: v = self.X.read(Ref(a.args[0], idx, IN.PT.get(a.args[0], "")), pc=TRUE)
            finally: self.X.mem = m
            return P(v) if isinstance(v, (Poly, Bdd)) else None
        return None
    def cond_(self, i):
        cv = T._cvlist[i]
        if cv.kind == "b" and cv.a.kind == "lp" and cv.a.args[0].startswith(self.pre):
            if not self.end: return T.b_var(i)
            v = self.state(cv.a.args[0][len(self.pre):])
            if isinstance(v, Bdd): return v
        return None
class FirstIter(NextIter):
    """a term of the loop body in the first iteration: what the loop carries is what it starts from"""
    def __init__(self, C, a, b):
        super().__init__(C.S, b, ZERO); self.C = C; self.a = a
    def at(self, X, l, p, idx, ty):
        m = X.mem; X.mem = l.entry
        try: return X.read(Ref(p, idx, ty), pc=TRUE)
        finally: X.mem = m
    def state(self, p):
        l = self.l
        if p in l.promoted: return self.at(self.X, l, p, l.promoted[p], l.mod[p])
        if p in l.mod: return self.at(self.X, l, p, (), l.mod[p])
        if p in self.a.mod and p not in self.a.promoted and "[*]" not in p: return self.C.ren(self.at(self.C.I, self.a, p, (), self.a.mod[p]))
        return None
    def atom_(self, a):
        if a.kind == "rd" and a.args[1] == "φ" + self.l.name and a.args[0][0] != "%":
            v = self.at(self.X, self.l, a.args[0], tuple(self.val(x) for x in a.args[2]), IN.PT.get(a.args[0], ""))
            return P(v) if isinstance(v, (Poly, Bdd)) else None
        return super().atom_(a) if a.kind != "rd" else None
EFFECTS = {"call", "exit", "throw", "insert", "extract", "new", "delete", "lib", "manip", "push", "resize", "clear", "method", "return"}
class Cmp:
    def __init__(self, I, S, facts=None, assume=TRUE, ignore=(), name="", only=None, calls=True, exits=True, ret=True, pats=None, assume_sizes=True, types=None):
        self.I = I; self.S = S; self.out = []; self.und = []; self.obl = 0; self.name = name
        fl = [IN.std_facts] + (list(facts) if facts else [])
        self.facts = Facts(fl)
        self.assume = assume; self.scaled = {}
        self.ignore = tuple(ignore); self.only = only
        self.calls = calls; self.exits = exits; self.ret = ret; self.pats = pats; self.assume_sizes = assume_sizes
        self.larr = {}; self.larr_s = set(); self.larr_inv = {}; self.Iloops = self.Sloops = set()
        self.lmap = {}; self.locmap = {}; self.consts = {}
        self.R = Renamer(self.lmap, self.locmap, self.consts)
        self.fnloc = I.loc(I.entry)
        self.nloops = 0; self.mempairs = {}
    def ren(self, v):
        if isinstance(v, (Poly, Bdd)): return self.R.val(v)
        if isinstance(v, Ref): return Ref(self.R.s(v.pat), tuple(self.R.val(x) for x in v.idx), v.ty)
        if isinstance(v, Ptr): return Ptr(self.ren(v.ref)) if v.ref is not None else v
        if isinstance(v, Iter): return Iter(self.ren(v.ref), self.R.val(v.pos))
        if isinstance(v, (RefIte, PtrIte)): return type(v)(self.R.val(v.c), self.ren(v.a), self.ren(v.b))
        return v
    def reset(self): self.R = Renamer(self.lmap, self.locmap, self.consts)
    def skip(self, p):
        if any(p == x or p.startswith(x) for x in self.ignore) or new_member(p): return True
        if self.only is not None and not any(p == x or p.startswith(x) for x in self.only): return True
        return False
    def eqv(self, a, b, assume, what, loc, where=""):
        """a: implementation value (renamed), b: reference"""
        self.obl += 1
        a = self.norm(a); b = self.norm(b)
        if a is None and b is None: return True
        if a is None or b is None:
            self.und.append("%s: value not modelled" % what); return False
        if isinstance(a, Bdd) != isinstance(b, Bdd): a, b = P(a), P(b)
        a = _modexp.val(a); b = _modexp.val(b)
        if isinstance(b, Poly):
            # where the reference leaves a value unspecified, anything is allowed
            un = find_atoms(b, is_un)
            if un: b = T.subst_any(b, {u: P(a) for u in un})
        try: d = T.differ(a, b, assume, self.facts)
        except T.Budget:
            if not self.separated(a, b, assume, what, loc, where): self.und.append("%s: budget" % what)
            return False
        if d is None: return True
        if d.weak or self.tainted(d):
            d2 = None if d.weak else self.first_iteration(a, b, assume, d)
            if d2 is not None:
                self.out.append(Finding("%s: computes %s, must be %s" % (what, show(d2.a)[:300], show(d2.b)[:300]), loc, where, "first iteration, " + show_asg(d2.asg)[:400]))
                return False
            if d.weak and self.separated(a, b, assume, what, loc, where, d): return False
            if DBG: print("NC", show(d.a)[:600], "\n  ", show(d.b)[:600], d.weak)
            self.und.append("%s: not comparable (%s)" % (what, show_asg(d.asg)[:200])); return False
        self.out.append(Finding("%s: computes %s, must be %s" % (what, show(d.a)[:300], show(d.b)[:300]), loc, where, show_asg(d.asg)[:400]))
        return False
    def separated(self, a, b, assume, what, loc, where, d=None):
        """terms too large to compare case by case: valuations that tell them apart"""
        if self.tainted(T.Diff(P(a), P(b), ())): return False
        try: h = T.separate(a, b, assume, self.facts)
        except T.Budget: return False
        if not h: return False
        self.out.append(Finding("%s: computes %s, must be %s" % (what, show(P(d.a if d else a))[:300], show(P(d.b if d else b))[:300]), loc, where, "for instance %s instead of %s" % (str(h[0][0])[:12], str(h[0][1])[:12])))
        return True
    def first_iteration(self, a, b, assume, d):
        """values that depend on something only this function carries along: the first iteration, where it still has its initial value, settles it"""
        ph = set()
        for x in (d.a, d.b) + tuple(T.condvar(i).p if T.condvar(i).p is not None else of_atom(T.condvar(i).a) for i, v in d.asg):
            for t in find_atoms(x, lambda t: t.kind == "lp" and t.args[0][0] == "φ"): ph.add(t.args[0][1:].split(":")[0])
        inv = {v: k for k, v in self.lmap.items()}
        Sl = {l.name: l for l in all_loops(self.S.loops)}; Il = {l.name: l for l in all_loops(self.I.loops)}
        try:
            for nm in sorted(ph, key=lambda x: -x.count(".")):
                lb, la = Sl.get(nm), Il.get(inv.get(nm))
                if la is None or lb is None: return None
                F = FirstIter(self, la, lb)
                a, b, assume = F.val(a), F.val(b), F.val(assume)
            if not ph: return None
            d = T.differ(a, b, assume, self.facts)
        except (T.Budget, KeyError, AttributeError): return None
        return d if d is not None and not d.weak and not self.tainted(d) else None
    def tainted(self, d): return False
    def norm(self, v):
        if isinstance(v, (Poly, Bdd)): return v
        if v is None: return None
        return P(self.I.term(v))
    # --------------------------------------------------------------
    def used_syms(self, X):
        u = getattr(X, "_used", None)
        if u is None:
            u = set()
            for e in X.events:
                if e.kind == "loopend": 
                    u |= all_syms(e.data.cond); continue
                u |= all_syms(e.pc)
                d = e.data
                for x in (d if isinstance(d, tuple) else (d,)):
                    u |= self.vsyms(x)
            for p, v in X.mem.d.items():
                if nonlocal_(p) and "[*]" not in p: u |= self.vsyms(v)
            if X.ret is not None: u |= self.vsyms(X.ret)
            X._used = u
        return u
    def vsyms(self, x):
        s = set()
        if isinstance(x, (Poly, Bdd)): s |= all_syms(x)
        elif isinstance(x, Ref):
            for y in x.idx: s |= all_syms(y)
        elif isinstance(x, (RefIte, PtrIte)): s |= all_syms(x.c) | self.vsyms(x.a) | self.vsyms(x.b)
        elif isinstance(x, Ptr) and x.ref is not None: s |= self.vsyms(x.ref)
        elif isinstance(x, Iter): s |= all_syms(x.pos) | self.vsyms(x.ref)
        elif isinstance(x, (list, tuple)):
            for y in x: s |= self.vsyms(y)
        return s
    def nlmods(self, l):
        r = {p for p in l.mod if nonlocal_(p) and not is_local(p) and not (p in l.pointwise and l.clean) and not self.skip(p)}
        # local arrays put in correspondence
        for p in l.mod:
            if p in l.pointwise and l.clean: continue
            if p in self.larr and l in self.Iloops: r.add(self.larr[p])
            elif p in self.larr_s and l in self.Sloops: r.add(p)
        return r
    def ipat(self, p): return self.larr_inv.get(p, p)
    def match_arrays(self):
        """local arrays whose contents flow through loops"""
        self.Iloops = set(all_loops(self.I.loops)); self.Sloops = set(all_loops(self.S.loops))
        def arrs(X, loops):
            out = []
            for l in loops:
                for p in l.mod:
                    if p[0] == "%" and "[*]" in p and not (p in l.pointwise and l.clean) and p not in out: out.append(p)
            return sorted(out)
        A, B = arrs(self.I, self.Iloops), arrs(self.S, self.Sloops)
        self.larr = {}
        def short(p): return p.split(".", 1)[-1].replace("~", "")
        left = list(B)
        for p in list(A):
            c = [q for q in left if short(q) == short(p)]
            if len(c) >= 1: self.larr[p] = c[0]; left.remove(c[0]); A.remove(p)
        for p in A:
            c = [q for q in left if IN.PT.get(q) == IN.PT.get(p)]
            if len(c) == 1 and sum(1 for x in A if IN.PT.get(x) == IN.PT.get(p)) == 1: self.larr[p] = c[0]; left.remove(c[0])
        self.larr_inv = {v: k for k, v in self.larr.items()}
        self.larr_s = set(self.larr.values())
        for p, q in self.larr.items():
            # the array as a whole (its element pattern and its size share the root)
            self.locmap[LOCRE.match(p).group(0)] = LOCRE.match(q).group(0)
        self.reset()
    def live_locals(self, X, l):
        """locals with loop-carried values that matter"""
        u = self.used_syms(X)
        names = {a.args[0] for a in u if a.kind == "lp"}
        out = []
        for p in l.mod:
            if not is_local(p) or "[*]" in p: continue
            if "φ" + l.name + ":" + p in names or "ω" + l.name + ":" + p in names: out.append(p)
        return out
    def opaque(self, X, l):
        o = getattr(l, "_opq", None)
        if o is None:
            o = bool(self.nlmods(l)) or not l.clean or bool(self.live_locals(X, l)) or any(self.opaque(X, c) for c in l.children)
            if not o and self.calls: o = any(e.kind in ("call", "exit") for e in l.events)
            l._opq = o
        return o
    # --------------------------------------------------------------
    def run(self):
        I, S = self.I, self.S
        if I.undecided:
            self.und += ["%s at %s" % u for u in I.undecided]
        # frame: locations modified on one side only
        outs = {"$p:%d" % i for i, q in enumerate(IN.params(I.entry)) if re.search(r"&$", q.get("type", {}).get("qualType", "")) and not q["type"]["qualType"].startswith("const ")}
        mi = {p for p in I.mem.d if nonlocal_(p) and (p in outs or not is_local(p)) and self.wrote(I, p)}
        ms = {p for p in S.mem.d if nonlocal_(p) and (p in outs or not is_local(p)) and self.wrote(S, p)}
        self.mi, self.ms = mi, ms
        for e in S.events:                     # spec_assume(...) in the reference: preconditions of the comparison
            if e.kind != "assume": continue
            A = b_or(b_not(e.pc), e.data); self.assume = b_and(self.assume, A)
            ks = [a for a in A.syms_() if a.kind == "sym" and a.args[0].startswith("k_")]
            if len(ks) == 1 and len(A.syms_()) == 1:            # it holds at every index the loop visits
                self.assume = b_and(self.assume, T.subst(A, {ks[0]: sym("?0", True)}))
        missing = [p for p in sorted(ms - mi) if not self.skip(p)]
        try:
            self.match_arrays()
            self.prematch(I.loops, S.loops, "")
            self.check_tokens()
            self.match_args()
            self.match(I.loops, S.loops, "")
            self.calls_cmp()
        except Undecided as e:
            self.und.append(str(e)); self.structural = True
            for p in missing:
                if self.read_final(S, p, True): self.out.append(Finding("%s is never updated by %s" % (p, self.name), self.fnloc))
            for p in sorted(mi - ms):
                if not self.skip(p) and not self.restored(p): self.out.append(Finding("%s is modified by %s, which must leave it alone" % (pretty(p), self.name), self.fnloc))
            self.finish(); return self
        self.structural = False
        pcs = T.b_and(self.assume, T.b_and(self.ren(I.finalpc), S.finalpc))
        if self.exits: self.eqv(self.ren(I.finalpc), S.finalpc, self.assume, "condition for completing normally", self.exitloc())
        if self.ret and (I.ret is not None or S.ret is not None):
            if isinstance(I.ret, (Ref, RefIte)) and isinstance(S.ret, (Ref, RefIte)) and (first_ref(S.ret).ty in I.prog.records):
                for s, t in I.leaves(first_ref(S.ret).ty):
                    if "[*]" in s: continue
                    a = I.read(self.fld(I.ret, s, t), pc=I.finalpc); b = S.read(self.fld(S.ret, s, t), pc=S.finalpc)
                    self.eqv(self.ren(a), b, pcs, "returned %s" % s.strip("."), self.fnloc)
            else:
                x, y = I.ret, S.ret
                if isinstance(x, (Ref, RefIte)): x = I.read(x, pc=I.finalpc)
                if isinstance(y, (Ref, RefIte)): y = S.read(y, pc=S.finalpc)
                if (x is None) != (y is None): self.und.append("return value")
                else: self.eqv(self.ren(x), y, pcs, "return value", self.retloc())
        pats = self.pats if self.pats is not None else sorted((mi | ms))
        for p in pats:
            if self.skip(p): continue
            self.final_pat(p, pcs)
        self.finish()
        return self
    def finish(self):
        # if the implementation used constructs outside the model, nothing it reports is definite
        if self.I.undecided and self.out:
            self.und += ["(withheld) " + repr(f) for f in self.out]; self.out = []
        if self.S.undecided: raise AnalysisBroken("reference not modelled: %s" % self.S.undecided[:3])
    def fld(self, r, s, t):
        if isinstance(r, RefIte): return RefIte(r.c, self.fld(r.a, s, t), self.fld(r.b, s, t))
        return Ref(r.pat + s, r.idx, t)
    def wrote(self, X, p):
        v = X.mem.d.get(p)
        return v is not None
    def read_final(self, X, p, flag=False): return True
    def restored(self, p):
        """final value of storage p is its initial one"""
        I = self.I; ty = self.type_of(p); idx = tuple(sym("?%d" % i, True) for i in range(p.count("[*]")))
        if ty is None or ty.endswith("*"): return True
        m = I.mem
        try:
            e = I.read(Ref(p, idx, ty), pc=I.finalpc)
            I.mem = m.copy(); I.mem.d.pop(p, None); b = I.read(Ref(p, idx, ty), pc=I.finalpc)
        finally: I.mem = m
        if type(e) is not type(b) or not isinstance(e, (Poly, Bdd)): return True
        try: return T.differ(e, b, I.finalpc) is None
        except T.Budget: return True
    def exitloc(self):
        for e in self.I.events:
            if e.kind in ("exit", "throw"): return e.loc
        return self.fnloc
    def retloc(self):
        l = self.fnloc
        for e in self.I.events:
            if e.kind == "return": l = e.loc
        return l
    def type_of(self, p): return IN.PT.get(p, "")
    def final_pat(self, p, pcs, where=""):
        I, S = self.I, self.S
        n = p.count("[*]"); ty = self.type_of(p)
        idx = tuple(sym("?%d" % i, True) for i in range(n))
        A = pcs
        if n and self.assume_sizes:
            parts = p.split("[*]"); pre = ""
            for i in range(n):
                pre += parts[i]
                A = b_and(A, T.ge(idx[i], ZERO))
                szp = pre + ".$size"
                if szp in IN.PT:
                    sz = S.read(Ref(szp, idx[:i], "unsigned long"), pc=S.finalpc)
                    if isinstance(sz, Poly): A = b_and(A, T.lt(idx[i], sz))
                pre += "[*]"
        a = I.read(Ref(p, idx, ty), pc=I.finalpc); b = S.read(Ref(p, idx, ty), pc=S.finalpc)
        self.eqv(self.ren(a), b, A, "final value of %s" % pretty(p), self.wloc(p), where)
    def in_bounds(self, p, idx, mem, pc):
        """indices of an arbitrary existing element"""
        A = TRUE
        if not idx: return A
        S = self.S; parts = p.split("[*]"); pre = ""
        m0 = S.mem; S.mem = mem
        try:
            for i in range(len(idx)):
                pre += parts[i]
                A = b_and(A, T.ge(idx[i], ZERO))
                szp = pre + ".$size"
                if self.assume_sizes and szp in IN.PT and pre[0] != "%":
                    sz = S.read(Ref(szp, idx[:i], "unsigned long"), pc=pc)
                    if isinstance(sz, Poly): A = b_and(A, T.lt(idx[i], sz))
                pre += "[*]"
        finally: S.mem = m0
        return A
    def wloc(self, p, events=None):
        l = None
        for e in (events if events is not None else self.I.events):
            if e.kind in ("write", "fill", "copy") and isinstance(e.data[0], Ref) and e.data[0].pat == p: l = e.loc
            elif e.kind == "loopend" and l is None and p in e.data.mod: l = e.loc
        return l or self.fnloc
    # loops ---------------------------------------------------------
    def match(self, li, ls, where, pre=False):
        A = [l for l in li if self.opaque(self.I, l)]; B = [l for l in ls if self.opaque(self.S, l)]
        if len(A) != len(B) and self.force(li, ls, A, B):
            A = [l for l in li if self.opaque(self.I, l)]; B = [l for l in ls if self.opaque(self.S, l)]
        if len(A) != len(B):
            self.unperformed(A, B)
            raise Undecided("loop structure differs in %s: %s vs reference %s" % (where or self.name, [l.loc for l in A], [l.loc for l in B]))
        pairs = []; left = list(A); rest = []
        for b in B:
            # same modified set, in order
            c = [a for a in left if self.nlmods(a) == self.nlmods(b)]
            if c: pairs.append((c[0], b)); left.remove(c[0])
            else: rest.append(b); pairs.append((None, b))
        if len(left) > 1: raise Undecided("work is distributed differently over the loops at %s" % [l.loc for l in left])
        for i, (a, b) in enumerate(pairs):
            if a is None:
                pairs[i] = (left.pop(0), b)
        for a, b in pairs:
            self.lmap[a.name] = b.name
        self.reset()
        if pre:
            for a, b in pairs: self.match(a.children, b.children, a.loc, True)
            return
        for a, b in pairs: self.loop_pair(a, b)
    def force(self, li, ls, A, B):
        """a loop that carries something on one side only: pair it with the loop over the same storage that carries nothing"""
        def fm(l): return {p for p in l.mod if nonlocal_(p) and not is_local(p) and not self.skip(p)}
        def pw(l): return {p for p in fm(l) if p in l.pointwise and l.clean}
        few, X, many, pool = (A, self.I, B, [l for l in li if l not in A]) if len(A) < len(B) else (B, self.S, A, [l for l in ls if l not in B])
        done = False; left = list(few)
        for b in many:
            c = [a for a in left if fm(a) == fm(b)]
            if c: left.remove(c[0]); continue
            c = [a for a in pool if fm(a) and fm(a) == fm(b) and pw(a) == pw(b) and (a.trip is None) == (b.trip is None)]
            if c: pool.remove(c[0]); c[0]._opq = True; done = True
        return done
    def unperformed(self, A, B):
        """the reference has a loop this function lacks, and what that loop works on stays as it was before it"""
        I, S = self.I, self.S
        if I.undecided or any(x.promoted for x in B): return
        amods = set()
        for a in A: amods |= {p for p in a.mod}
        for b in B:
            if self.S.loops and b not in self.S.loops: continue
            ps = [p for p in b.mod if nonlocal_(p) and not is_local(p) and not self.skip(p)]
            if not ps or any(p in amods for p in ps): continue
            for p in ps:
                n = p.count("[*]"); ty = self.type_of(p)
                if not ty or ty.endswith("*"): continue
                idx = tuple(sym("?%d" % i, True) for i in range(n)); m1 = S.mem
                x = I.read(Ref(p, idx, ty), pc=I.finalpc); y2 = S.read(Ref(p, idx, ty), pc=S.finalpc)
                S.mem = b.entry
                try: y = S.read(Ref(p, idx, ty), pc=b.pre_pc)
                finally: S.mem = m1
                if not all(isinstance(v, (Poly, Bdd)) for v in (x, y, y2)): continue
                Ap = b_and(b_and(self.assume, self.in_bounds(p, idx, S.mem, S.finalpc)), b_and(b.pre_pc, self.ren(I.finalpc)))
                if b.trip is not None: Ap = b_and(Ap, T.ge(b.trip, ONE))
                try:
                    if T.sat(Ap) and T.differ(self.ren(x), y, Ap, self.facts) is None:
                        d = T.differ(y, y2, b_and(Ap, S.finalpc), self.facts)
                        if d is not None and not d.weak: self.out.append(Finding("%s is left as it is; the work of %s is not done" % (pretty(p), b.loc.split("/")[-1]), self.wloc(p))); return
                except T.Budget: pass
    def prematch(self, li, ls, where): self.match(li, ls, where, True)
    def loop_pair(self, a, b):
        I, S = self.I, self.S
        self.nloops += 1
        base = T.b_and(self.assume, T.b_and(self.ren(a.pre_pc), b.pre_pc))
        # locals
        la = self.live_locals(I, a); lb = self.live_locals(S, b)
        flags = self.flags(a, la)
        for p, v0 in flags.items():
            la.remove(p); self.consts["φ" + a.name + ":" + p] = v0
        self.match_locals(a, b, la, lb, base)
        self.reset()
        for pa, pb in self.pairs_of(a, b, la, lb): self.rescale(a, b, pa, pb, base)
        # reversed traversal?
        if not self.same_direction(a, b):
            dep = self.order_dependence(a)
            if dep: self.out.append(Finding("traverses in the opposite order although later iterations read %s written by earlier ones" % pretty(dep), a.loc)); self.obl += 1; return
            raise Undecided("traversal order of loop at %s differs" % a.loc)
        if set(x for x in a.promoted if not self.skip(x)) != set(x for x in b.promoted if not self.skip(x)) :
            com = set(a.promoted) ^ set(b.promoted)
            com -= self.invariant_elements(a, com)
            if any(x in a.mod and x in b.mod for x in com): raise Undecided("carried element of loop at %s" % a.loc)
        ca, cb = self.ren(a.cond), b.cond
        ea, eb = self.ren(a.pc_end), b.pc_end
        ba, bb = self.ren(a.breaks), b.breaks
        for p, v0 in flags.items():
            # a flag tested by the loop condition: setting it is leaving the loop
            go = self.ren(a.end.d.get(p)); go = go if v0 is TRUE else b_not(go)
            ba = b_or(ba, b_and(ea, b_not(go))); ea = b_and(ea, go)
        nf = False; ca0, cb0, ba0, bb0, ea0, eb0 = ca, cb, ba, bb, ea, eb
        if not (a.trip is not None and b.trip is not None):
            try: nf = bool(flags) or T.differ(ca, cb, base, self.facts) is not None
            except T.Budget: nf = True
            if nf:
                # compare the guard for performing (and surviving) an iteration as a whole
                ba = b_or(b_not(ca), b_and(ca, ba)); ea = b_and(ca, ea); ca = TRUE
                bb = b_or(b_not(cb), b_and(cb, bb)); eb = b_and(cb, eb); cb = TRUE
        if nf: pass
        elif a.trip is not None and b.trip is not None:
            self.eqv(self.ren(a.trip), b.trip, base, "iteration count of the loop", a.loc)
        else:
            self.eqv(self.ren(a.cond), b.cond, base, "condition of the loop", a.loc)
        A = T.b_and(base, T.b_and(ca, cb))
        A = b_and(A, T.ge(b.k, ZERO))
        if b.trip is not None: A = b_and(A, T.lt(b.k, b.trip))
        n0 = len(self.out)
        self.match(a.children, b.children, a.loc)
        for pa, pb in self.pairs_of(a, b, la, lb):
            if pb in b.ind:
                v = b.ind[pb]; v = v.pos if isinstance(v, Iter) else v
                self.consts["φ" + a.name + ":" + pa] = v
        self.reset()
        if self.exits:
            xa = xb = FALSE
            for e in a.events:
                if e.kind == "exit" and e.loops and e.loops[-1] is a: xa = b_or(xa, e.pc)
            for e in b.events:
                if e.kind == "exit" and e.loops and e.loops[-1] is b: xb = b_or(xb, e.pc)
            if xa is not FALSE or xb is not FALSE: self.eqv(self.ren(xa), xb, A, "condition for ending the program in the loop", a.loc)
        # carried locals
        for pa, pb in self.pairs_of(a, b, la, lb):
            x = a.end.d.get(pa); y = b.end.d.get(pb)
            contA = ea; contB = eb
            if isinstance(x, Iter) and isinstance(y, Iter): x, y = x.pos, y.pos
            x = self.ren(x)
            if (a.name, pa) in self.scaled: x = T.mul(x, self.scaled[(a.name, pa)])
            self.eqv(x, y, b_and(A, b_and(contA, contB)), "value of '%s' carried to the next iteration" % pretty(pa), self.wloc(pa, a.events))
            # value when leaving the loop early
            if "ω" + b.name + ":" + pb in {q.args[0] for q in self.used_syms(S) if q.kind == "lp"} and (a.breaks is not FALSE or b.breaks is not FALSE) and not nf:
                self.eqv(x, y, b_and(A, b_and(ba, bb)), "value of '%s' when leaving the loop" % pretty(pa), self.wloc(pa, a.events))
        for pa, pb, x, y in self.mem_pair_ends(a, b):
            self.eqv(self.ren(x), y, b_and(A, b_and(ea, eb)), "value of '%s' carried to the next iteration" % pretty(pa), self.wloc(pa, a.events))
            if (a.breaks is not FALSE or b.breaks is not FALSE) and not nf:
                self.eqv(self.ren(x), y, b_and(A, b_and(ba, bb)), "value of '%s' when leaving the loop" % pretty(pa), self.wloc(pa, a.events))
        if not self.harmless_exit(a, b, la, lb, A, base, nf, (ca0, cb0, ea0, eb0), (ea, eb)):
            self.eqv(ea, eb, A, "condition for continuing the loop", a.loc)
            if (a.breaks is not FALSE or b.breaks is not FALSE) and not nf:
                self.eqv(ba, bb, A, "condition for leaving the loop", a.loc)
        ra = [r for r in a.rets]; rb = [r for r in b.rets]
        if ra or rb:
            ga = gb = FALSE; va = vb = None
            for f, g, v in ra: ga = b_or(ga, g); va = v
            for f, g, v in rb: gb = b_or(gb, g); vb = v
            self.eqv(self.ren(ga), gb, A, "condition for returning from inside the loop", a.loc)
            if va is not None and vb is not None and len(ra) == 1 == len(rb): self.eqv(self.ren(va), vb, b_and(A, b_and(self.ren(ga), gb)), "value returned from inside the loop", a.loc)
        # storage
        pats = (self.nlmods(a) | self.nlmods(b)) - {p for pr in self.mempairs.get(a.name, ()) for p in pr}
        for p in sorted(pats):
            n = p.count("[*]"); ty = self.type_of(p)
            idx = tuple(sym("?%d" % i, True) for i in range(n))
            m0, m1 = I.mem, S.mem
            I.mem, S.mem = a.end, b.end
            try:
                x = I.read(Ref(self.ipat(p), idx, ty), pc=TRUE); y = S.read(Ref(p, idx, ty), pc=TRUE)
            finally: I.mem, S.mem = m0, m1
            AA = b_and(A, self.in_bounds(p, idx, b.end, TRUE))
            self.eqv(self.ren(x), y, AA, "%s after one iteration" % pretty(p), self.wloc(p, a.events))
            # state on entry
            I.mem, S.mem = a.entry, b.entry
            try:
                x = I.read(Ref(self.ipat(p), idx, ty), pc=a.pre_pc); y = S.read(Ref(p, idx, ty), pc=b.pre_pc)
            finally: I.mem, S.mem = m0, m1
            AA = b_and(base, self.in_bounds(p, idx, b.entry, b.pre_pc))
            self.eqv(self.ren(x), y, AA, "%s on entry to the loop" % pretty(p), a.loc)
    def harmless_exit(self, a, b, la, lb, A, base, nf, orig, cur):
        """one side leaves the loop where the other goes on: fine when going on changes nothing"""
        ca, cb, ea, eb = orig
        if self.mempairs.get(a.name): return False
        try:
            if T.differ(cur[0], cur[1], A, self.facts) is None: return False
            G = b_and(base, T.ge(b.k, ZERO))
            for X, l, live, c1, e1, c2, e2, ren in ((self.S, b, lb, cb, eb, ca, ea, lambda v: v), (self.I, a, la, ca, ea, cb, eb, self.ren)):
                # this side (c1, e1) goes on, the other (c2, e2) does not
                K = b.k
                early = b_and(b_and(G, c1), b_not(c2)) if nf else FALSE          # the other side's condition stops it before the iteration
                late = b_and(b_and(G, b_and(c1, c2)), b_and(e1, b_not(e2)))       # it leaves at the end of the iteration
                if not nf and b.trip is not None: late = b_and(late, T.lt(K, b.trip))
                for cond, end in ((early, False), (late, True)):
                    if not T.sat(cond, self.facts): continue
                    if not self.noop(X, l, live, cond, end, ren): return False
            # both sides must agree on the state they leave with
            for pa, pb in self.pairs_of(a, b, la, lb):
                x = a.end.d.get(pa); y = b.end.d.get(pb)
                if not isinstance(x, (Poly, Bdd)) or not isinstance(y, (Poly, Bdd)): return False
                if T.differ(self.ren(x), y, b_and(A, b_not(b_and(ea, eb))), self.facts) is not None: return False
        except T.Budget: return False
        self.obl += 1
        return True
    def noop(self, X, l, live, cond, end, ren):
        k2 = sym("k2#", True); N = NextIter(X, l, k2, end)
        C = b_and(cond, T.ge(k2, add(l.k, ONE) if end else l.k))
        if ren is not None: C = b_and(cond, T.ge(k2, ren(add(l.k, ONE) if end else l.k)))
        C = b_and(C, ren(N.val(l.cond)))
        if l.trip is not None: C = b_and(C, T.lt(k2, ren(l.trip)))
        if not T.sat(C, self.facts): return True
        for e in l.events:
            if e.kind in ("read", "access", "div", "mod", "sqrt", "trunc", "narrow", "lossy", "count", "usub", "bind", "loopend", "ptraccess", "at", "intabs", "write", "fill", "copy"): continue
            if T.sat(b_and(C, ren(N.val(e.pc))), self.facts): return False
        for f, g, v in l.rets:
            if T.sat(b_and(C, ren(N.val(g))), self.facts): return False
        for p in live:
            if p in l.ind: 
                return False
            x = l.end.d.get(p); y = x if end else l.phis.get(p)
            if not isinstance(x, (Poly, Bdd)) or not isinstance(y, (Poly, Bdd)): return False
            if T.differ(ren(N.val(x)), ren(y), C, self.facts) is not None: return False
        m0 = X.mem
        for p in sorted(self.nlmods(l)):
            q = self.ipat(p) if X is self.I else p
            n = q.count("[*]"); ty = self.type_of(q); idx = tuple(sym("?%d" % i, True) for i in range(n))
            if q in l.promoted: idx = l.promoted[q]
            try:
                X.mem = l.end; x = X.read(Ref(q, idx, ty), pc=TRUE)
                X.mem = l.end if end else l.start; y = X.read(Ref(q, idx, ty), pc=TRUE)
            finally: X.mem = m0
            if not isinstance(x, (Poly, Bdd)) or not isinstance(y, (Poly, Bdd)): return False
            d = T.differ(ren(N.val(x)), ren(y), C, self.facts)
            if d is not None:
                if DBG: print("NOOP", q, show(ren(N.val(x)))[:300], "|", show(ren(y))[:300], show_asg(d.asg)[:300])
                return False
        return True
    def flags(self, a, la):
        """carried booleans that are constant while the loop runs and whose change ends it"""
        out = {}
        for p in la:
            if a.mod.get(p) != "bool" or p in a.ind: continue
            v = self.I.scalar_at(a.entry, p, "bool")
            if v not in (TRUE, FALSE) or not isinstance(a.end.d.get(p), Bdd): continue
            ph = a.phis.get(p)
            if not isinstance(ph, Bdd): continue
            keep = ph if v is TRUE else b_not(ph)
            if b_and(a.cond, b_not(keep)) is FALSE and not ("ω" + a.name + ":" + p in {q.args[0] for q in self.used_syms(self.I) if q.kind == "lp"}): out[p] = v
        return out
    def invariant_elements(self, a, com):
        """single elements of the implementation's loop that every iteration leaves as it found them"""
        out = set(); I = self.I
        for p in com:
            if p not in a.promoted: continue
            ix = a.promoted[p]; key = "φ" + a.name + ":" + p
            mi0 = I.mem
            try:
                I.mem = a.end; e = I.read(Ref(p, ix, a.mod[p]), pc=a.pc_end)
                I.mem = a.start; s = I.read(Ref(p, ix, a.mod[p]), pc=a.pc_end)
                I.mem = a.entry; v = I.read(Ref(p, ix, a.mod[p]), pc=a.pre_pc)
            finally: I.mem = mi0
            if not isinstance(e, (Poly, Bdd)) or type(e) is not type(s) or differ(e, s, a.pc_end) is not None: continue
            self.consts[key] = self.ren(v); self.consts["ω" + a.name + ":" + p] = self.ren(v); out.add(p)
        if out: self.reset()
        return out
    def order_dependence(self, a):
        """storage of which an iteration may read what another iteration of the loop wrote"""
        k2 = sym("k2", True)
        ws = [e for e in a.events if e.kind == "write" and isinstance(e.data[0], Ref) and e.data[0].idx and nonlocal_(e.data[0].pat)]
        rs = [e for e in a.events if e.kind == "read" and isinstance(e.data, Ref) and e.data.idx and e.data.pat in a.mod]
        for w in ws:
            for r in rs:
                x = w.data[0]
                if x.pat != r.data.pat or len(x.idx) != len(r.data.idx): continue
                g = b_and(w.pc, T.subst(r.pc, {a.katom: k2}))
                for i, j in zip(x.idx, r.data.idx): g = b_and(g, T.eq(i, T.subst(j, {a.katom: k2})))
                g = b_and(g, T.ne(a.k, k2))
                try:
                    if g is not FALSE and T.differ(g, FALSE, self.assume, self.facts) is not None: return x.pat
                except T.Budget: continue
        return None
    def same_direction(self, a, b):
        # induction variables used as indices: sign of k
        def signs(l):
            s = set()
            for p, v in l.ind.items():
                q = v.pos if isinstance(v, Iter) else v
                if not isinstance(q, Poly): continue
                for m, c in q.items:
                    if any(x == l.katom.id for x, e in m): s.add(c > 0)
            return s
        sa, sb = signs(a), signs(b)
        if not sa or not sb: return True
        return bool(sa & sb)
    def pairs_of(self, a, b, la, lb):
        out = []
        for pa in la:
            pb = self.locmap.get((a.name, pa), self.locmap.get(pa, pa))
            if pb in lb and pa not in a.ind: out.append((pa, pb))
        return out
    def rescale(self, a, b, pa, pb, base):
        """sums that differ by a factor taken out of the loop: func = c * sum against func = sum of c * ..."""
        x, y = a.end.d.get(pa), b.end.d.get(pb)
        if not isinstance(x, Poly) or not isinstance(y, Poly) or x.isint: return
        x = self.ren(x); nm = "φ" + b.name + ":" + pb
        def phi(t):
            l = [q for q in all_syms(t) if q.kind == "lp" and q.args[0] == nm]
            if len(l) != 1: return None
            r = T.subst_any(t, {l[0]: ZERO})
            if any(q.kind == "lp" and q.args[0] == nm for q in all_syms(r)): return None
            try: return r if T.differ(t, add(of_atom(l[0]), r), base, self.facts) is None else None
            except T.Budget: return None
        dx, dy = phi(x), phi(y)
        if dx is None or dy is None or dx is dy or dx is ZERO or dy is ZERO: return
        cx, cy = content(dx), content(dy); q = {}
        for k in set(cx) | set(cy):
            e = cy.get(k, 0) - cx.get(k, 0)
            if e: q[k] = e
        f = ONE
        for k, e in q.items():
            if k.kind == "lp" or b.katom in k.syms or all_syms(of_atom(k)): return
            f = T.mul(f, T.power(of_atom(k), e) if e > 0 else T.inv(T.power(of_atom(k), -e)))
        lx, ly = some_leaf(T.mul(dx, f)), some_leaf(dy)
        if lx is not None and ly is not None and lx.items and ly.items: f = T.mul(f, num(ly.items[0][1] / lx.items[0][1]))
        if f is ONE: return
        x0, y0 = self.I.scalar_at(a.entry, pa, a.mod.get(pa, "")), self.S.scalar_at(b.entry, pb, b.mod.get(pb, ""))
        if not isinstance(x0, Poly) or not isinstance(y0, Poly): return
        try:
            if T.differ(T.mul(self.ren(x0), f), y0, base, self.facts) is not None or T.differ(T.mul(dx, f), dy, b_and(base, T.ge(b.k, ZERO)), self.facts) is not None: return
        except T.Budget: return
        self.scaled[(a.name, pa)] = f
        self.consts["φ" + a.name + ":" + pa] = Scaled(T.inv(f)); self.consts["ω" + a.name + ":" + pa] = Scaled(T.inv(f)); self.reset()
    def match_locals(self, a, b, la, lb, base):
        I, S = self.I, self.S
        left = [p for p in lb]
        done = []
        def init(X, l, p): return X.scalar_at(l.entry, p, l.mod.get(p, ""))
        def short(p): return p.split(".")[-1].split("~")[0]
        def same(pa, pb):
            x, y = init(I, a, pa), init(S, b, pb)
            if isinstance(x, Iter): x = x.pos
            if isinstance(y, Iter): y = y.pos
            ux, uy = I.is_uninit(x), S.is_uninit(y)
            if ux or uy: return ux and uy
            if type(x) is not type(y) or not isinstance(x, (Poly, Bdd)): return False
            try: return T.differ(self.ren(x), y, base, self.facts) is None
            except T.Budget: return False
        # induction variables: by closed form
        todo = []
        for pa in la:
            if pa in left: self.locmap.pop(pa, None); self.locmap.pop((a.name, pa), None); left.remove(pa); done.append(pa); continue     # identical ($p:n)
            todo.append(pa)
        rest = []
        # score: name equality then initial-value equality
        groups = []
        for pa in todo:
            c = [pb for pb in left if same(pa, pb)]
            groups.append((pa, c))
        groups.sort(key=lambda g: len(g[1]))
        assigned = {}
        for pa, c in groups:
            c = [x for x in c if x in left]
            byname = [x for x in c if short(x) == short(pa)]
            if byname: pick = byname[0]
            elif len(c) == 1: pick = c[0]
            elif c: pick = self.best(a, b, pa, c)
            else: rest.append(pa); continue
            assigned[pa] = pick; left.remove(pick)
        for pa in rest:
            byname = [x for x in left if short(x) == short(pa)]
            if byname:
                pick = byname[0]
                left.remove(pick); assigned[pa] = pick
                x, y = init(I, a, pa), init(S, b, pick)
                if isinstance(x, (Poly, Bdd)) and isinstance(y, (Poly, Bdd)) and not I.is_uninit(x) and not S.is_uninit(y):
                    self.eqv(self.ren(x), y, base, "value of '%s' on entry to the loop" % pretty(pa), a.loc)
                elif I.is_uninit(x) != S.is_uninit(y): raise Undecided("entry value of %s" % pa)
            else:
                # a local on one side that caches one element of storage the other side updates in place
                p = self.cached(a, b, pa, None, base)
                if p is None: raise Undecided("carried variable '%s' of the loop at %s has no counterpart" % (pretty(pa), a.loc))
        for pb in list(left):
            if self.cached(a, b, None, pb, base) is not None: left.remove(pb)
        for pb in list(left):
            # the local of that name is there, but this loop never changes it
            c = {q for q in list(I.mem.d) + list(a.entry.d) if q[0] == "%" and "[*]" not in q and short(q) == short(pb) and q not in a.mod and IN.PT.get(q) == IN.PT.get(pb)}
            e = [q for q in a.ind if q[0] == "%" and short(q) == short(pb) and IN.PT.get(q) == IN.PT.get(pb)]
            if not c and len(e) == 1:                     # ... or changes it in every iteration alike
                y = b.end.d.get(pb); x = a.end.d.get(e[0]); v = a.ind[e[0]]
                z = [q for q in self.used_syms(S) if q.kind == "lp" and q.args[0] == "φ" + b.name + ":" + pb]
                if isinstance(y, Poly) and isinstance(x, Poly) and isinstance(v, Poly) and z:
                    v = self.ren(v); x = self.ren(x)
                    try: d = T.differ(T.subst(x, {z[0]: v}), T.subst(y, {z[0]: v}), b_and(base, b_and(b.cond, b_and(b.pc_end, self.ren(a.pc_end)))), self.facts)
                    except T.Budget: d = None
                    if d is not None and not d.weak and not self.tainted(d):
                        self.out.append(Finding("'%s' carried to the next iteration: computes %s, must be %s" % (short(pb), show(d.a)[:200], show(d.b)[:200]), a.loc, "", show_asg(d.asg)[:300])); left.remove(pb)
                continue
            if len(c) == 1:
                y = b.end.d.get(pb); z = [q for q in self.used_syms(S) if q.kind == "lp" and q.args[0] == "φ" + b.name + ":" + pb]
                if isinstance(y, Poly) and z:
                    try: d = T.differ(of_atom(z[0]), y, b_and(base, b_and(b.cond, b.pc_end)), self.facts)
                    except T.Budget: d = None
                    if d is not None and not d.weak:
                        self.out.append(Finding("'%s' stays the same in the loop: must become %s" % (short(pb), show(d.b)[:200]), a.loc, "", show_asg(d.asg)[:300])); left.remove(pb)
        if left: raise Undecided("no counterpart for carried %s of the loop at %s" % ([pretty(x) for x in left], a.loc))
        for pa, pb in assigned.items():
            self.locmap[(a.name, pa)] = pb
            self.locmap.setdefault(pa, pb)
    def elem(self, X, l, p, mem):
        m0 = X.mem
        try:
            X.mem = mem
            return X.read(Ref(p, l.promoted.get(p, ()), l.mod[p]), pc=TRUE)
        finally: X.mem = m0
    def cached(self, a, b, pa, pb, base):
        I, S = self.I, self.S
        X, l, q, Y, m = (I, a, pa, S, b) if pa is not None else (S, b, pb, I, a)
        if q in l.ind: return None
        x = X.scalar_at(l.entry, q, l.mod.get(q, ""))
        if not isinstance(x, (Poly, Bdd)) or X.is_uninit(x): return None
        for p in sorted(m.mod):
            if is_local(p) or not nonlocal_(p) or self.skip(p) or p in l.mod: continue
            if "[*]" in p and p not in m.promoted or p in m.ind: continue
            y = self.elem(Y, m, p, m.entry)
            if type(y) is not type(x): continue
            u, v = (self.ren(x), y) if X is I else (self.ren(y), x)
            try:
                if T.differ(u, v, base, self.facts) is not None: continue
            except T.Budget: continue
            pair = (pa, p) if pa is not None else (p, pb)
            if any(pair[0] == z[0] or pair[1] == z[1] for z in self.mempairs.get(a.name, ())): continue
            self.mempairs.setdefault(a.name, []).append(pair)
            self.locmap[(a.name, pair[0])] = pair[1]
            return p
        return None
    def mem_pair_ends(self, a, b):
        for pa, pb in self.mempairs.get(a.name, ()):
            x = a.end.d.get(pa) if is_local(pa) else self.elem(self.I, a, pa, a.end)
            y = b.end.d.get(pb) if is_local(pb) else self.elem(self.S, b, pb, b.end)
            yield pa, pb, x, y
    def best(self, a, b, pa, cands):
        """candidate whose update is equal when it is assumed to be the counterpart"""
        for c in cands:
            r = Renamer(self.lmap, {**self.locmap, pa: c, (a.name, pa): c}, self.consts)
            x = a.end.d.get(pa); y = b.end.d.get(c)
            if isinstance(x, (Poly, Bdd)) and isinstance(y, (Poly, Bdd)):
                try:
                    if T.differ(r.val(x), y, TRUE, self.facts) is None: return c
                except T.Budget: pass
        return cands[0]
    # calls ----------------------------------------------------------
    def tokens(self, X, names=None):
        """non-inlined calls: (callee, loops) -> ordered {token: [events]}"""
        out = {}
        for e in X.events:
            if e.kind == "call":
                loops = tuple(l.name for l in e.loops)
                if X is self.I: loops = tuple(self.lmap.get(l, l) for l in loops)
                tok = e.data[4] if len(e.data) > 4 else "x%d" % e.n
                out.setdefault((e.data[0], loops), {}).setdefault(tok, []).append(e)
        return out
    def calls_cmp(self):
        A, B = self.tokens(self.I), self.tokens(self.S)
        for key in sorted(set(A) | set(B)):
            nm = key[0]
            if not self.calls or (self.calls is not True and nm not in self.calls): continue
            ta, tb = A.get(key, {}), B.get(key, {})
            def guard(es, ren):
                g = FALSE
                for e in es: g = b_or(g, self.ren(e.pc) if ren else e.pc)
                return g
            loc = next(iter(ta.values()))[0].loc if ta else self.fnloc
            if len(ta) != len(tb):
                pa = pb = FALSE
                for es in ta.values(): pa = b_or(pa, guard(es, True))
                for es in tb.values(): pb = b_or(pb, guard(es, False))
                if self.eqv(pa, pb, self.assume, "condition for calling %s" % nm, loc):
                    self.und.append("number of call sites of %s" % nm)
                continue
            for (va, ea), (vb, eb) in zip(ta.items(), tb.items()):
                ga, gb = guard(ea, True), guard(eb, False)
                gA = self.running(ga, gb)
                self.eqv(ga, gb, gA, "condition for calling %s" % nm, ea[0].loc)
                for x in ea:
                    for y in eb:
                        A2 = b_and(self.assume, b_and(self.ren(x.pc), y.pc))
                        if A2 is FALSE: continue
                        if len(x.data) > 3 and len(y.data) > 3 and x.data[3] != y.data[3] and x.data[3] in self.I.prog.funcs and y.data[3] in self.I.prog.funcs:
                            self.out.append(Finding("calls another overload of %s (%s)" % (nm, x.data[3].split("|")[-1]), x.loc)); self.obl += 1; continue
                        if isinstance(x.data[1], Ref) and isinstance(y.data[1], Ref) and x.data[1].pat[0] != "%" and y.data[1].pat[0] != "%":
                            self.obl += 1
                            if x.data[1].pat != y.data[1].pat: self.out.append(Finding("%s is called on %s instead of %s" % (nm, pretty(x.data[1].pat), pretty(y.data[1].pat)), x.loc))
                        self.call_state(nm, x, y, A2)
                        if len(x.data[2]) != len(y.data[2]): self.und.append("arguments of %s" % nm); continue
                        for i, (u, v) in enumerate(zip(x.data[2], y.data[2])):
                            if isinstance(u, Lam) or isinstance(v, Lam): continue
                            if isinstance(u, (Ref, RefIte)) and isinstance(v, (Ref, RefIte)) and first_ref(u).pat[0] == "%":
                                if isinstance(u, Ref) and isinstance(v, Ref) and v.pat[0] == "%" and self.reads_arg(x, i): self.arg_state(nm, x, y, A2, i)
                                continue
                            if isinstance(u, Ptr) and isinstance(v, Ptr) and isinstance(u.ref, Ref) and isinstance(v.ref, Ref) and u.ref.pat[0] == v.ref.pat[0] == "%": continue
                            if isinstance(u, (Ref, RefIte)) and u.ty not in ("",) and not isinstance(v, (Ref, RefIte)): u = self.I.read(u, pc=x.pc)
                            if isinstance(u, Ref) and isinstance(v, Ref) and (u.pat[0] == "%") != (v.pat[0] == "%") and (is_vec(u.ty) or u.ty in I.prog.records):
                                # the callee works directly on an object instead of on a copy of it (or the reverse)
                                self.und.append("object passed to %s" % nm); continue
                            self.eqv(self.ren(self.norm(u)), self.norm(v), A2, "argument %d of %s" % (i + 1, nm), x.loc)
    def running(self, *vs):
        """iteration numbers of counted loops are below the (equal) iteration counts"""
        A = self.assume
        for l in self.Sloops:
            if l.trip is not None and any(find_atoms(v, lambda a: a is l.katom) for v in vs): A = b_and(A, b_and(T.ge(l.k, ZERO), T.lt(l.k, l.trip)))
        return A
    def reads_arg(self, x, i):
        """the callee takes this argument as a constant object: what it holds is what the callee works on"""
        f = self.I.prog.funcs.get(x.data[3]) if len(x.data) > 3 and isinstance(x.data[3], str) else None
        if f is None or x.mem is None: return False
        ps = IN.params(f)
        return i < len(ps) and re.match(r"const .*&$", ps[i].get("type", {}).get("qualType", "")) is not None
    def arg_state(self, nm, x, y, A, only=None):
        """objects handed to an external call hold the same values"""
        I, S = self.I, self.S
        f = self.I.prog.funcs.get(x.data[3]) if only is not None else None
        names = field_reads(self.I.prog, f) if f is not None else None
        mi0, ms0 = I.mem, S.mem
        I.mem, S.mem = x.mem, y.mem
        try:
            for i, (u, v) in enumerate(zip(x.data[2], y.data[2])):
                if only is not None and i != only: continue
                u = u.ref if isinstance(u, Ptr) else u; v = v.ref if isinstance(v, Ptr) else v
                if not isinstance(u, Ref) or not isinstance(v, Ref) or u.ty != v.ty: continue
                for s, t in I.leaves(u.ty):
                    flds = re.findall(r"\.(\w+)", s)
                    if names is not None and flds and flds[-1] not in names: continue
                    if t.endswith("*"):
                        pu = I.mem.d.get(u.pat + s); pv = S.mem.d.get(v.pat + s)
                        if isinstance(pu, Ptr) and isinstance(pv, Ptr): self.eqv(self.ren(I.term(pu)), S.term(pv), A, "argument %d of %s%s" % (i + 1, nm[4:], s), x.loc)
                        continue
                    idx = tuple(sym("?%d" % j, True) for j in range(s.count("[*]")))
                    A2 = A
                    if idx: A2 = b_and(A, self.in_bounds(v.pat + s, v.idx + idx, y.mem, y.pc))
                    a = I.read(Ref(u.pat + s, u.idx + idx, t), pc=x.pc); b = S.read(Ref(v.pat + s, v.idx + idx, t), pc=y.pc)
                    self.eqv(self.ren(a), b, A2, "argument %d of %s%s" % (i + 1, nm[4:] if nm.startswith("ext:") else nm, pretty(s)), x.loc)
        finally: I.mem, S.mem = mi0, ms0
    def call_state(self, nm, x, y, A):
        """storage the callee may read must be the same when it is called"""
        if x.mem is None or y.mem is None or len(x.data) < 4: return
        f = self.I.prog.funcs.get(x.data[3]) if isinstance(x.data[3], str) else None
        if nm.startswith("ext:"): return self.arg_state(nm, x, y, A)
        if f is None and nm != "operator()": return
        if f is not None and f.get("kind") == "CXXConstructorDecl": return
        names = field_reads(self.I.prog, f) if f is not None else None
        I, S = self.I, self.S
        ps = [p for p in sorted(self.mi | self.ms) if not is_local(p) and not self.skip(p) and (p in x.mem.d or p in y.mem.d)]
        mi0, ms0 = I.mem, S.mem
        I.mem, S.mem = x.mem, y.mem
        try:
            for p in ps:
                flds = re.findall(r"\.(\w+)", p)
                if names is not None and flds and flds[-1] not in names: continue
                if x.mem.d.get(p) is y.mem.d.get(p): continue
                n = p.count("[*]"); ty = self.type_of(p)
                idx = tuple(sym("?%d" % i, True) for i in range(n)); A2 = b_and(A, self.in_bounds(p, idx, y.mem, y.pc))
                a = I.read(Ref(p, idx, ty), pc=x.pc); b = S.read(Ref(p, idx, ty), pc=y.pc)
                self.eqv(self.ren(a), b, A2, "%s when %s is called" % (pretty(p), nm), x.loc)
        finally: I.mem, S.mem = mi0, ms0
    def match_args(self):
        """local containers handed to corresponding calls correspond"""
        A, B = self.tokens(self.I), self.tokens(self.S)
        for key in A:
            if len(A[key]) != len(B.get(key, {})): continue
            for ea, eb in zip(A[key].values(), B[key].values()):
                x, y = ea[0], eb[0]
                if len(x.data[2]) != len(y.data[2]): continue
                for u, v in zip(x.data[2], y.data[2]):
                    if isinstance(u, Ref) and isinstance(v, Ref) and u.ty == v.ty and u.pat[0] == v.pat[0] == "%" and is_vec(u.ty):
                        a, b = LOCRE.match(u.pat).group(0), LOCRE.match(v.pat).group(0)
                        if a not in self.locmap and b not in self.locmap.values(): self.locmap[a] = b
        self.reset()
    def check_tokens(self):
        """call tokens whose numbering cannot be put in correspondence make dependent values incomparable"""
        A, B = self.tokens(self.I), self.tokens(self.S)
        self.taint = set()
        for key in set(A) | set(B):
            if len(A.get(key, {})) != len(B.get(key, {})): self.taint.add("c:" + key[0])
    def specnames(self):
        n = getattr(self, "_sn", None)
        if n is None:
            n = set()
            def add(p):
                for m in LOCRE.finditer(p): n.add(m.group(0))
            for p in self.S.mem.d: add(p)
            for l in self.Sloops:
                for p in l.mod: add(p)
            for q in self.used_syms(self.S):
                for x in q.args:
                    if isinstance(x, str): add(x)
            self._sn = n
        return n
    def tainted(self, d):
        taint = getattr(self, "taint", None) or ()
        sn = self.specnames(); lv = set(self.lmap.values())
        def bad(a):
            if a.kind not in ("lp", "rd"): return False
            x = a.args[0]
            if a.kind == "rd" and new_member(x) or a.kind == "lp" and ":$" in x and new_member(x[x.index(":") + 1:]): return True
            for y in a.args:
                if isinstance(y, str) and any(t in y for t in taint): return True
            if "%" in x and any(m.group(0)[0] == "%" and m.group(0) not in sn for m in LOCRE.finditer(x)): return True
            return False
        for x in (d.a, d.b):
            if find_atoms(x, bad): return True
        for i, v in d.asg:
            c = T._cvlist[i]
            x = c.p if c.p is not None else of_atom(c.a)
            if find_atoms(x, bad): return True
        return False

def pretty(p): return re.sub(r"^%[\w#]+\.", "", p).replace("$this.", "this->").replace("$p:", "argument ").replace(".$size", ".size()")
