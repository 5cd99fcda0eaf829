"""Term domain: polynomials over interned atoms, conditions as BDDs over
comparison atoms, guarded (ite) terms, and the decision procedures on them
(case-split equality, linear feasibility, random interpretation of ite-free
leaves in the sense of Gulwani/Necula)."""
from fractions import Fraction
import itertools, hashlib, sys, time
from decimal import Decimal, getcontext
sys.setrecursionlimit(100000)
getcontext().prec = 60

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "args", "isint", "id", "hasite", "syms")
    def __repr__(self): return show_atom(self)
_atoms = {}
_atom_list = []
def atom(kind, *args, isint=False):
    key = (kind, args, isint)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.kind = kind; a.args = args; a.isint = isint; a.id = len(_atom_list)
        a.hasite = (kind == "ite") or any(_hasite(x) for x in args)
        s = frozenset()
        for x in args: s |= _syms(x)
        if kind in ("sym", "lp") or (kind == "rd" and args[1] and args[1][0] == "\u03c6"): s |= frozenset([a])
        a.syms = s
        _atoms[key] = a; _atom_list.append(a)
    return a
def _hasite(x):
    if isinstance(x, Poly): return x.hasite
    if isinstance(x, tuple): return any(_hasite(y) for y in x)
    if isinstance(x, Bdd): return x.hasite_()
    return False
def _syms(x):
    if isinstance(x, Poly): return x.syms
    if isinstance(x, Atom): return x.syms
    if isinstance(x, Bdd): return x.syms_()
    if isinstance(x, tuple):
        s = frozenset()
        for y in x: s |= _syms(y)
        return s
    return frozenset()

# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("items", "hasite", "syms", "isint", "id", "_d")
    def __repr__(self): return show(self)
    def const(self):
        if not self.items: return Fraction(0)
        if len(self.items) == 1 and self.items[0][0] == (): return self.items[0][1]
        return None
    def single(self):
        """the atom if the polynomial is exactly one atom"""
        if len(self.items) == 1 and self.items[0][1] == 1:
            m = self.items[0][0]
            if len(m) == 1 and m[0][1] == 1: return _atom_list[m[0][0]]
        return None
    def atoms(self):
        return [_atom_list[i] for i in sorted({ai for m, c in self.items for ai, e in m})]
    def __add__(a, b): return add(a, b)
    def __sub__(a, b): return sub(a, b)
    def __mul__(a, b): return mul(a, b)
_polys = {}
def _mk(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    p = _polys.get(items)
    if p is None:
        p = Poly(); p.items = items; p.id = len(_polys)
        hi = False; s = frozenset(); ii = True
        for m, c in items:
            if c.denominator != 1: ii = False
            for ai, e in m:
                a = _atom_list[ai]
                hi = hi or a.hasite; s |= a.syms
                if not a.isint or e < 0: ii = False
        p.hasite = hi; p.syms = s; p.isint = ii
        _polys[items] = p
    return p
def num(c): 
    return _mk({(): Fraction(c)})
ZERO = num(0); ONE = num(1)
def of_atom(a): return _mk({((a.id, 1),): Fraction(1)})
def sym(name, isint=False): return of_atom(atom("sym", name, isint=isint))
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return of_atom(x)
    if isinstance(x, Bdd): return ite(x, ONE, ZERO)
    return num(Fraction(x))
def add(a, b):
    a = P(a); b = P(b)
    d = dict(a.items)
    for m, c in b.items: d[m] = d.get(m, 0) + c
    return _mk(d)
def neg(a): return _mk({m: -c for m, c in P(a).items})
def sub(a, b): return add(a, neg(b))
def scale(a, k): return _mk({m: c * k for m, c in a.items})
def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))
def mul(a, b):
    a = P(a); b = P(b)
    d = {}; extra = None
    for m1, c1 in a.items:
        for m2, c2 in b.items:
            m = _mulmono(m1, m2); c = c1 * c2
            # sqrt(t)^2 = t ; sqrt(t)^-2 = 1/t
            red = None
            for ai, e in m:
                at = _atom_list[ai]
                if at.kind == "fn" and at.args[0] == "sqrt" and abs(e) >= 2:
                    red = (ai, e, at); break
            if red:
                ai, e, at = red
                q = abs(e) // 2; r = e - (2 * q if e > 0 else -2 * q)
                rest = [(x, y) for x, y in m if x != ai]
                if r: rest.append((ai, r))
                t = _mk({tuple(sorted(rest)): c})
                base = at.args[1]
                for _ in range(q): t = mul(t, base) if e > 0 else div(t, base)
                extra = t if extra is None else add(extra, t)
            else:
                d[m] = d.get(m, 0) + c
    r = _mk(d)
    return r if extra is None else add(r, extra)
def _content(p):
    """split p = k * q with q's leading coefficient 1"""
    k = p.items[-1][1]
    return k, scale(p, 1 / k)
def inv(b):
    c = b.const()
    if c is not None:
        if c == 0: return of_atom(atom("fn", "divzero"))
        return num(1 / c)
    if len(b.items) == 1:
        m, c = b.items[0]
        return _mk({tuple((a, -e) for a, e in m): 1 / c})
    k, q = _content(b)
    return scale(of_atom(atom("inv", q)), 1 / k)
def div(a, b): return mul(a, inv(P(b)))
def fn(name, *args, isint=False): return of_atom(atom("fn", name, *args, isint=isint))
def power(a, n):
    r = ONE
    for _ in range(n): r = mul(r, a)
    return r
def sqrt_(a):
    c = a.const()
    if c is not None and c >= 0:
        import math
        p, q = c.numerator, c.denominator
        sp, sq = math.isqrt(p), math.isqrt(q)
        if sp * sp == p and sq * sq == q: return num(Fraction(sp, sq))
    return fn("sqrt", a)
def trunc_(a):
    c = a.const()
    if c is not None: return num(int(c))
    if a.isint: return a
    return fn("trunc", a, isint=True)
def floor_(a):
    c = a.const()
    if c is not None:
        import math
        return num(math.floor(c))
    if a.isint: return a
    return fn("floor", a, isint=True)
def idiv_(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb)); return num(q if (ca >= 0) == (cb > 0) else -q)
    if cb == 1: return a
    return fn("idiv", a, b, isint=True)
def mod_(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return num(int(ca) % int(cb))
    if cb == 1: return ZERO
    return fn("mod", a, b, isint=True)

# ------------------------------------------------------------------ BDD conditions
class Bdd:
    __slots__ = ("v", "lo", "hi", "id", "_s", "_h")
    def __repr__(self): return show_cond(self)
    def syms_(self):
        if self._s is None:
            s = frozenset()
            if self.v is not None:
                s = condvar_syms(self.v) | self.lo.syms_() | self.hi.syms_()
            self._s = s
        return self._s
    def hasite_(self): return False
    def __and__(a, b): return b_and(a, b)
    def __or__(a, b): return b_or(a, b)
    def __invert__(a): return b_not(a)
_bdds = {}
def _leaf(n):
    b = Bdd(); b.v = None; b.lo = b.hi = None; b.id = n; b._s = frozenset(); b._h = False
    return b
FALSE = _leaf(0); TRUE = _leaf(1)
def _node(v, lo, hi):
    if lo is hi: return lo
    k = (v, lo.id, hi.id)
    b = _bdds.get(k)
    if b is None:
        b = Bdd(); b.v = v; b.lo = lo; b.hi = hi; b.id = len(_bdds) + 2; b._s = None; b._h = None
        _bdds[k] = b
    return b
_ite_memo = {}
def b_ite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f.id, g.id, h.id)
    r = _ite_memo.get(k)
    if r is not None: return r
    v = min(x.v for x in (f, g, h) if x.v is not None)
    def co(x, b): 
        if x.v != v: return x
        return x.hi if b else x.lo
    r = _node(v, b_ite(co(f, 0), co(g, 0), co(h, 0)), b_ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite_memo[k] = r
    return r
def b_and(a, b): return b_ite(a, b, FALSE)
def b_or(a, b): return b_ite(a, TRUE, b)
def b_not(a): return b_ite(a, FALSE, TRUE)
def b_xor(a, b): return b_ite(a, b_not(b), b)
def b_implies(a, b): return b_ite(a, b, TRUE)
def b_support(b):
    s = set(); seen = set(); st = [b]
    while st:
        x = st.pop()
        if x.v is None or x.id in seen: continue
        seen.add(x.id); s.add(x.v); st.append(x.lo); st.append(x.hi)
    return s
def b_cof(b, v, val):
    if b.v is None or b.v > v: return b
    if b.v == v: return b.hi if val else b.lo
    return _node(b.v, b_cof(b.lo, v, val), b_cof(b.hi, v, val))
_res_memo = {}
def b_restrict(f, c):
    """Coudert-Madre restrict: simplify f under care set c"""
    if c is FALSE or c is TRUE or f.v is None: return f
    k = (f.id, c.id)
    r = _res_memo.get(k)
    if r is not None: return r
    if c.v < f.v:
        r = b_restrict(f, b_or(c.lo, c.hi))
    else:
        clo, chi = (c.lo, c.hi) if c.v == f.v else (c, c)
        if clo is FALSE: r = b_restrict(f.hi, chi)
        elif chi is FALSE: r = b_restrict(f.lo, clo)
        else: r = _node(f.v, b_restrict(f.lo, clo), b_restrict(f.hi, chi))
    _res_memo[k] = r
    return r

# condition variables ------------------------------------------------
_cv = {}
_cvlist = []
class CondVar:
    __slots__ = ("kind", "p", "c", "idx", "a")
def _condvar(kind, p, c, a=None):
    k = (kind, p.id if p is not None else None, c, a.id if a is not None else None)
    i = _cv.get(k)
    if i is None:
        x = CondVar(); x.kind = kind; x.p = p; x.c = c; x.a = a; x.idx = i = len(_cvlist)
        _cv[k] = i; _cvlist.append(x)
    return i
def condvar(i): return _cvlist[i]
def condvar_syms(i):
    x = _cvlist[i]
    return x.p.syms if x.p is not None else x.a.syms
def b_var(i): return _node(i, FALSE, TRUE)
def b_atom(a): return b_var(_condvar("b", None, 0, a))

def _split_const(p):
    c = Fraction(0); d = {}
    for m, k in p.items:
        if m == (): c = k
        else: d[m] = k
    return c, _mk(d)
HUGE_LIM = Fraction(10) ** 300; HUGE = Fraction(10) ** 308
def lt0(p):
    """condition p < 0 for an ite-free p"""
    c, q = _split_const(p)
    if not q.items: return TRUE if c < 0 else FALSE
    if c > HUGE_LIM: return FALSE          # magnitudes in use stay far below the largest double
    if c < -HUGE_LIM: return TRUE
    lead = q.items[-1][1]
    # make primitive
    if q.isint:
        from math import gcd
        g = 0
        for m, k in q.items: g = gcd(g, abs(k.numerator))
        s = Fraction(1, g)
    else:
        s = 1 / abs(lead)
    q2 = scale(q, s); c2 = c * s           # q2 + c2 < 0
    import math
    if q2.items[-1][1] > 0:                # q2 < -c2
        t = -c2
        if q2.isint:                       # q2 < ceil(t)
            return b_var(_condvar("lt", q2, Fraction(math.ceil(t))))
        return b_var(_condvar("lt", q2, t))
    q3 = neg(q2)                           # -q3 + c2 < 0  -> q3 > c2 -> not (q3 <= c2)
    if q3.isint:                           # q3 <= c2 -> q3 < floor(c2)+1
        return b_not(b_var(_condvar("lt", q3, Fraction(math.floor(c2) + 1))))
    return b_not(b_var(_condvar("le", q3, c2)))
LIFT_LIMIT = 14
_cs_memo = {}
def cond_support(t):
    """condition variables occurring in the ites of t"""
    r = _cs_memo.get(t.id)
    if r is None:
        s = set()
        def atom_(a):
            if not a.hasite: return
            for x in a.args: go(x)
        def go(x):
            if isinstance(x, Poly):
                if x.hasite: s.update(cond_support(x))
            elif isinstance(x, tuple):
                for y in x: go(y)
            elif isinstance(x, Bdd): s.update(b_support(x))
        for m, c in t.items:
            for ai, e in m:
                a = _atom_list[ai]
                if a.hasite:
                    for x in a.args:
                        if isinstance(x, Bdd) and a.kind != "ite": continue
                        go(x)
        r = _cs_memo[t.id] = frozenset(s)
    return r
_lift_memo = {}
LIFT_BUDGET = 3000
class _LiftOver(Exception): pass
def _lift(t, f):
    """apply f to ite-free versions of polynomial t, building a BDD"""
    if not t.hasite: return f(t)
    r = _lift_memo.get((t.id, f))
    if r is not None: return r
    cnt = [LIFT_BUDGET if len(cond_support(t)) <= 40 else 200]
    memo = {}
    def rec(t):
        if not t.hasite: return f(t)
        r = _lift_memo.get((t.id, f)) or memo.get(t.id)
        if r is not None: return r
        cnt[0] -= 1
        if cnt[0] < 0: raise _LiftOver()
        a = find_ite(t)
        v = a.args[0].v
        r = memo[t.id] = b_ite(b_var(v), rec(assign(t, v, True)), rec(assign(t, v, False)))
        return r
    try: r = rec(t)
    except _LiftOver: r = b_atom(atom("fn", "lt0?", t))
    _lift_memo[(t.id, f)] = r
    return r
_cmp_memo = {}
def lt(a, b):
    d = sub(P(a), P(b)); r = _cmp_memo.get(d.id)
    if r is None: r = _cmp_memo[d.id] = _lift(d, lt0)
    return r
def gt(a, b): return lt(b, a)
def le(a, b): return b_not(lt(b, a))
def is_weak(a):
    """atom standing for a comparison too large to expand"""
    return a.kind == "fn" and a.args[0] in ("lt0?", "opq")
def ge(a, b): return b_not(lt(a, b))
def eq(a, b): return b_and(le(a, b), le(b, a))
def ne(a, b): return b_not(eq(a, b))

# ------------------------------------------------------------------ ite terms
def ite(c, a, b):
    if isinstance(a, Bdd) and isinstance(b, Bdd): return b_ite(c, a, b)
    a = P(a); b = P(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    t = c                                        # one polarity of the condition
    while t.v is not None: t = t.hi
    if t is FALSE: c = b_not(c); a, b = b, a
    if c.lo is FALSE and c.hi is TRUE:           # both branches agree where the comparison is an equality: one strictness
        cv = _cvlist[c.v]
        if cv.kind != "b":
            d = sub(a, b)
            if not d.hasite and d.items and d.syms == cv.p.syms:
                r = _root(d, cv.p)
                if r is not None and ((cv.p.isint and r == cv.c - 1) or (not cv.p.isint and r == cv.c and cv.kind == "le")): c = b_var(_condvar("lt", cv.p, r))
    # flatten same condition
    sa = a.single()
    if sa is not None and sa.kind == "ite" and sa.args[0] is c: a = sa.args[1]
    sb = b.single()
    if sb is not None and sb.kind == "ite" and sb.args[0] is c: b = sb.args[2]
    if a is b: return a
    isint = a.isint and b.isint
    return of_atom(atom("ite", c, a, b, isint=isint))
def _root(d, p):
    """r with d = k*(p - r), None if there is none"""
    c, q = _split_const(d)
    if len(q.items) != len(p.items): return None
    k = q.items[-1][1] / p.items[-1][1]
    if scale(p, k) is not q: return None
    return -c / k
_fi_memo = {}
def find_ite(t):
    """some ite atom inside t (innermost conditions are ite-free by construction)"""
    if not t.hasite: return None
    r = _fi_memo.get(t.id)
    if r is None:
        for m, c in t.items:
            for ai, e in m:
                a = _atom_list[ai]
                if a.hasite:
                    r = _find_in_atom(a)
                    break
            if r is not None: break
        _fi_memo[t.id] = r
    return r
def _find_in_atom(a):
    if a.kind == "ite": return a
    def go(x):
        if isinstance(x, Poly): return find_ite(x)
        if isinstance(x, tuple):
            for y in x:
                r = go(y)
                if r is not None: return r
        return None
    for x in a.args:
        r = go(x)
        if r is not None: return r
    return None

# generic rewriting ---------------------------------------------------
class Rewriter:
    """bottom-up rewriting of terms; override atom_(a)->Poly or None, cond_(i)->Bdd or None"""
    def __init__(self): self.pm = {}; self.am = {}; self.bm = {}
    def atom_(self, a): return None
    def cond_(self, i): return None
    def skip(self, a): return False
    def poly(self, t):
        r = self.pm.get(t.id)
        if r is not None: return r
        if all(self.skip(_atom_list[ai]) for m, c in t.items for ai, e in m):
            self.pm[t.id] = t; return t
        r = ZERO; changed = False
        acc = {}
        for m, c in t.items:
            parts = None; keep = []
            for ai, e in m:
                a = _atom_list[ai]
                x = self.atom(a)
                if x.single() is a: keep.append((ai, e)); continue
                parts = parts or []
                parts.append((x, e)); changed = True
            base = {tuple(keep): c}
            if parts is None:
                acc[m] = acc.get(m, 0) + c; continue
            v = _mk(base)
            for x, e in parts:
                for _ in range(abs(e)): v = mul(v, x) if e > 0 else div(v, x)
            r = add(r, v)
        r = add(r, _mk(acc)) if acc else r
        self.pm[t.id] = r
        return r
    def atom(self, a):
        r = self.am.get(a.id)
        if r is not None: return r
        if self.skip(a): r = of_atom(a)
        else:
            r = self.atom_(a)
            if r is None: r = self.rebuild(a)
        self.am[a.id] = r
        return r
    def val(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Bdd): return self.bdd(x)
        if isinstance(x, tuple): return tuple(self.val(y) for y in x)
        if isinstance(x, Atom):
            p = self.atom(x); s = p.single()
            return s if s is not None else x
        return x
    def rebuild(self, a):
        if a.kind in ("sym",): return of_atom(a)
        args = tuple(self.val(x) for x in a.args)
        if args == a.args: return of_atom(a)
        return mk_atom(a.kind, args, a.isint)
    def bdd(self, b):
        if b.v is None: return b
        r = self.bm.get(b.id)
        if r is not None: return r
        cv = _cvlist[b.v]
        x = self.cond_(b.v)
        if x is None:
            if cv.kind == "b":
                if self.skip(cv.a): x = b_var(b.v)
                else:
                    q = self.batom(cv.a)
                    x = q if q is not None else b_var(b.v)
            else:
                if all(self.skip(_atom_list[ai]) for m, c in cv.p.items for ai, e in m): x = b_var(b.v)
                else:
                    p = self.poly(cv.p)
                    if p is cv.p: x = b_var(b.v)
                    elif cv.kind == "lt": x = lt(p, num(cv.c))
                    else: x = le(p, num(cv.c))
        r = b_ite(x, self.bdd(b.hi), self.bdd(b.lo))
        self.bm[b.id] = r
        return r
    def batom(self, a):
        """rewrite of a boolean atom -> Bdd"""
        p = self.atom(a)
        s = p.single()
        if s is a: return None
        if s is not None and s.kind != "ite": return b_atom(s)
        return ne(p, ZERO)
def mk_atom(kind, args, isint):
    if kind == "ite": return ite(args[0], args[1], args[2])
    if kind == "inv": return inv(args[0])
    if kind == "fn":
        n = args[0]
        if n == "sqrt": return sqrt_(args[1])
        if n == "trunc": return trunc_(args[1])
        if n == "floor": return floor_(args[1])
        if n == "idiv": return idiv_(args[1], args[2])
        if n == "mod": return mod_(args[1], args[2])
    return of_atom(atom(kind, *args, isint=isint))
class _Subst(Rewriter):
    def __init__(self, m): super().__init__(); self.m = m; self.keys = frozenset(m)
    def atom_(self, a): return self.m.get(a)
    def skip(self, a): return a not in self.m and not (a.syms & self.keys) and not self.deep
    deep = False
def subst(t, m):
    """substitute atoms (Atom->Poly); sym/phi atoms only"""
    s = _Subst(m)
    return s.val(t)
class _SubstAny(_Subst):
    deep = True
    def skip(self, a): return False
def subst_any(t, m): return _SubstAny(m).val(t)
_ra_memo = {}
def replace_atom(t, a, x):
    k = (t.id, a.id, x.id)
    r = _ra_memo.get(k)
    if r is None:
        r = _ra_memo[k] = _ReplIte({a: x}).poly(t)
    return r
class _ReplIte(Rewriter):
    def __init__(self, m): super().__init__(); self.m = m
    def atom_(self, a): return self.m.get(a)
    def skip(self, a): return not a.hasite and a not in self.m
    def bdd(self, b): return b
class _Assume(Rewriter):
    """restrict all conditions under care set"""
    def __init__(self, care): super().__init__(); self.care = care
    def atom_(self, a):
        if a.kind == "ite":
            c = b_restrict(a.args[0], self.care)
            if c is TRUE: return self.poly(a.args[1])
            if c is FALSE: return self.poly(a.args[2])
            return ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        return None
    def skip(self, a): return not a.hasite
    def bdd(self, b): return b
def under(t, care):
    if care is TRUE: return t
    if isinstance(t, Bdd): return b_restrict(t, care)
    if isinstance(t, Poly) and t.hasite: return _Assume(care).poly(t)
    return t
class _Assign(Rewriter):
    def __init__(self, v, val): super().__init__(); self.v = v; self.value = val
    def atom_(self, a):
        if a.kind == "ite":
            c = b_cof(a.args[0], self.v, self.value)
            if c is TRUE: return self.poly(a.args[1])
            if c is FALSE: return self.poly(a.args[2])
            return ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        return None
    def skip(self, a): return not a.hasite
    def bdd(self, b): return b
def assign(t, v, val):
    if isinstance(t, Bdd): return b_cof(t, v, val)
    if not t.hasite: return t
    return _Assign(v, val).poly(t)

# ------------------------------------------------------------------ facts & feasibility
class Facts:
    """supplies linear facts about atoms: list of polys known to be >= 0 / == 0"""
    def __init__(self, fns=(), global_ge=(), global_eq=()):
        self.fns = list(fns); self.gge = list(global_ge); self.geq = list(global_eq)
    def for_atom(self, a):
        """(list ge0, list eq0)"""
        ge0, eq0 = [], []
        p = of_atom(a)
        if a.kind == "fn":
            n = a.args[0]
            if n == "trunc":
                x = a.args[1]                       # valid for x >= 0 (unsigned truncation)
                ge0 += [sub(x, p)] if False else []
            if n == "floor":
                x = a.args[1]
                ge0 += [sub(x, p), sub(add(p, ONE), x)]
            if n == "mod":
                ge0 += [p, sub(sub(a.args[2], ONE), p)]
            if n == "idiv":
                r = fn("mod", a.args[1], a.args[2], isint=True)
                eq0.append(sub(sub(a.args[1], mul(a.args[2], p)), r)); ge0.append(p)
            if n == "sqrt": ge0.append(p)
            if n == "size": ge0.append(p)
        for f in self.fns:
            r = f(a)
            if r:
                ge0 += r[0]; eq0 += r[1]
        return ge0, eq0
NOFACTS = Facts()

def _lin(p):
    """linear form over monomials: dict mono->coef"""
    return dict(p.items)
def feasible(assignlist, facts=NOFACTS, limit=4000):
    """assignlist: list of (condvar index, bool). Is the conjunction feasible in linear
    arithmetic (over monomials) with the facts?  True = maybe feasible."""
    ge = []; gt_ = []; eqs = []
    bools = {}
    groups = {}
    for i, val in assignlist:
        cv = _cvlist[i]
        if cv.kind == "b":
            if bools.get(i, val) != val: return False
            bools[i] = val; continue
        p = cv.p; c = num(cv.c)
        if cv.kind == "lt":
            if val: (ge.append(sub(sub(c, ONE), p)) if p.isint else gt_.append(sub(c, p)))
            else: ge.append(sub(p, c))
        else:
            if val: ge.append(sub(c, p))
            else: gt_.append(sub(p, c))
    todo = list(ge) + list(gt_) + list(facts.gge) + list(facts.geq); seen = set(); depth = 0
    ge += facts.gge; eqs += facts.geq
    if not _fm(ge, gt_, eqs, limit): return False
    level = 0
    while todo and len(seen) < 200 and level < 6:
        level += 1; nxt = []; new = False
        for p in todo:
            for m, c in p.items:
                for ai, e in m:
                    if ai in seen: continue
                    seen.add(ai)
                    g, q = facts.for_atom(_atom_list[ai])
                    if g or q: new = True
                    ge += g; eqs += q; nxt += g; nxt += q
                    # int atoms: even powers nonneg
                if m and all(e % 2 == 0 for _, e in m): ge.append(_mk({m: Fraction(1)})); new = True
        todo = nxt
        if new and not _fm(ge, gt_, eqs, limit): return False
    # products of a constraint with a non-negative atom, when the products occur already
    nl = set()
    for p in ge + gt_ + eqs:
        for m, c in p.items:
            if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1: nl.add((m[0][0], m[1][0]))
    if nl:
        nn = set()
        for p in ge:
            a = p.single()
            if a is not None: nn.add(a.id)
        extra = []
        for p in ge[:60]:
            ids = {m[0][0] for m, c in p.items if len(m) == 1 and m[0][1] == 1}
            for x in nn:
                if any(((x, y) in nl or (y, x) in nl) for y in ids) and all(len(m) <= 1 for m, c in p.items):
                    extra.append(mul(of_atom(_atom_list[x]), p))
        if extra and len(extra) < 60 and not _fm(ge + extra, gt_, eqs, limit): return False
    return True
def _fm(ge, gt_, eqs, limit):
    rows = {}
    def put(d, strict):
        d = {m: c for m, c in d.items() if c != 0}
        k = d.pop((), Fraction(0))
        if not d:
            return k > 0 if strict else k >= 0
        s = abs(next(iter(sorted(d.items())))[1])
        key = tuple(sorted((m, c / s) for m, c in d.items())); k = k / s
        # integer tightening
        o = rows.get(key)
        if o is None or k < o[0] or (k == o[0] and strict and not o[1]): rows[key] = (k, strict)
        return True
    ge = [_lin(p) for p in ge]; gt_ = [_lin(p) for p in gt_]; eqs = [_lin(p) for p in eqs]
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        e = {m: c for m, c in e.items() if c != 0}
        piv = None
        for m in e:
            if m != (): 
                piv = m; break
        if piv is None:
            if e.get((), 0) != 0: return False
            continue
        pc = e[piv]
        def elim(d):
            c = d.get(piv, 0)
            if c == 0: return d
            r = dict(d)
            for m, k in e.items(): r[m] = r.get(m, 0) - c * k / pc
            r.pop(piv, None)
            return r
        eqs = [elim(d) for d in eqs]; ge = [elim(d) for d in ge]; gt_ = [elim(d) for d in gt_]
    for d in ge:
        if not put(d, False): return False
    for d in gt_:
        if not put(d, True): return False
    while rows:
        # choose variable minimizing product
        cnt = {}
        for key in rows:
            for m, c in key:
                a = cnt.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1], m))
        pos, ng, rest = [], [], {}
        for key, (k, s) in rows.items():
            c = dict(key).get(v)
            if c is None: rest[key] = (k, s)
            elif c > 0: pos.append((key, k, s, c))
            else: ng.append((key, k, s, c))
        rows = rest
        if len(pos) * len(ng) + len(rest) > limit: continue      # constraints on v are dropped
        for k1, c1, s1, a1 in pos:
            for k2, c2, s2, a2 in ng:
                d = {}
                for m, c in k1: d[m] = d.get(m, 0) + c / a1
                for m, c in k2: d[m] = d.get(m, 0) + c / (-a2)
                d[()] = c1 / a1 + c2 / (-a2)
                d.pop(v, None)
                if not put(d, s1 or s2): return False
    return True

def _consistent(asg, i, val):
    """cheap check of threshold monotonicity against same-poly assignments"""
    cv = _cvlist[i]
    if cv.kind == "b": return True
    for j, w in asg:
        o = _cvlist[j]
        if o.kind == "b" or o.p is not cv.p: continue
        # each var means p < c or p <= c ; order by (c, kind: lt before le)
        a = (cv.c, 0 if cv.kind == "lt" else 1); b = (o.c, 0 if o.kind == "lt" else 1)
        if a <= b and val and not w: return False
        if a >= b and not val and w: return False
    return True

class Budget(Exception): pass
_budget = [0]
def sat_path(b, facts=NOFACTS, asg=(), budget=None):
    """a feasible assignment (list) satisfying BDD b, or None"""
    if b is FALSE: return None
    if b is TRUE:
        return list(asg) if feasible(list(asg), facts) else None
    for val in (True, False):
        ch = b.hi if val else b.lo
        if ch is FALSE: continue
        if not _consistent(asg, b.v, val): continue
        a2 = asg + ((b.v, val),)
        if len(a2) % 4 == 0 and not feasible(list(a2), facts): continue
        r = sat_path(ch, facts, a2)
        if r is not None: return r
    return None
def entails(a, b, facts=NOFACTS):
    return sat_path(b_and(a, b_not(b)), facts) is None
def sat(b, facts=NOFACTS): return sat_path(b, facts) is not None

# ------------------------------------------------------------------ equality
def _pick(t):
    a = find_ite(t)
    return a.args[0].v if a is not None else None
def has_weak(x, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, Poly):
        if ("p", x.id) in seen: return False
        seen.add(("p", x.id))
        return any(has_weak(_atom_list[ai], seen) for m, c in x.items for ai, e in m)
    if isinstance(x, Atom):
        if ("a", x.id) in seen: return False
        seen.add(("a", x.id))
        return is_weak(x) or any(has_weak(y, seen) for y in x.args)
    if isinstance(x, tuple): return any(has_weak(y, seen) for y in x)
    if isinstance(x, Bdd):
        return any(has_weak(_cvlist[i].p if _cvlist[i].p is not None else _cvlist[i].a, seen) for i in b_support(x))
    return False
class Diff:
    def __init__(self, a, b, asg): self.a = a; self.b = b; self.asg = asg
    @property
    def weak(self):
        return has_weak(self.a) or has_weak(self.b) or any(has_weak(_cvlist[i].p if _cvlist[i].p is not None else _cvlist[i].a) for i, v in self.asg)
    def __repr__(self):
        return "%s  vs  %s  when %s" % (show(self.a), show(self.b), show_asg(self.asg))
def differ(t1, t2, assume=TRUE, facts=NOFACTS, budget=200000):
    """None if t1 == t2 in every feasible case under `assume`; otherwise a Diff"""
    cnt = [budget]
    if isinstance(t1, Bdd) or isinstance(t2, Bdd):
        b1 = t1 if isinstance(t1, Bdd) else ne(t1, ZERO)
        b2 = t2 if isinstance(t2, Bdd) else ne(t2, ZERO)
        x = b_and(assume, b_xor(b1, b2))
        for n in range(8):
            s = sat_path(x, facts)
            if s is None: return None
            if not _incongruent(s): break
            x = b_and(x, b_not(_cube(s)))                  # one location read as true and as false
        return Diff(P(b1), P(b2), s)
    def settled(a, b, d, s):
        if same_leaf(a, b, s): return True
        # rounding of a quantity the path keeps non-negative
        a1, b1 = _Floor(s, facts).val(a), _Floor(s, facts).val(b)
        if (a1 is not a or b1 is not b) and same_leaf(a1, b1, s): return True
        # equality may follow from the equalities of the path
        return sat_path(lt(d, ZERO), facts, tuple(s)) is None and sat_path(lt(ZERO, d), facts, tuple(s)) is None
    def rec(a, b, A, asg):
        if a is b or A is FALSE: return None
        cnt[0] -= 1
        if cnt[0] < 0: raise Budget()
        v = _pick(a)
        if v is None: v = _pick(b)
        if v is None:
            if same_leaf(a, b, asg): return None
            d = sub(a, b)
            for n in range(8):
                s = sat_path(A, facts, asg)
                if s is None: return None
                if not settled(a, b, d, s): return _rounding_path(a, b, A, asg, s, facts)
                A = b_and(A, b_not(_cube(s, asg)))         # equal on this path: look at the others
            return None
        for val in (True, False):
            if not _consistent(asg, v, val): continue
            A2 = b_cof(A, v, val)
            if A2 is FALSE: continue
            asg2 = asg + ((v, val),)
            if len(asg2) % 3 == 0 and not feasible(list(asg2), facts): continue
            r = rec(assign(a, v, val), assign(b, v, val), A2, asg2)
            if r is not None: return r
        return None
    return rec(P(t1), P(t2), assume, ())

def _h(x, seed):
    h = hashlib.md5(repr((x, seed)).encode()).digest()
    return Decimal(int.from_bytes(h[:6], "big") % 1000003 + 7) / Decimal(1009)
class RI:
    """random interpretation: evaluates ite-free terms with pseudo-random leaves"""
    def __init__(self, seed): self.seed = seed; self.am = {}; self.pm = {}
    def poly(self, p):
        r = self.pm.get(p.id)
        if r is None:
            r = Decimal(0)
            for m, c in p.items:
                v = Decimal(c.numerator) / Decimal(c.denominator)
                for ai, e in m:
                    x = self.atom(_atom_list[ai])
                    v = v * x ** e if e > 0 else v / (x ** (-e) if x != 0 else Decimal("1e-30"))
                r += v
            self.pm[p.id] = r
        return r
    def arg(self, x):
        if isinstance(x, Poly): return str(self.poly(x).quantize(Decimal("1e-25"))) if abs(self.poly(x)) < Decimal("1e25") else str(self.poly(x))
        if isinstance(x, Bdd): return "B%d" % x.id
        if isinstance(x, tuple): return tuple(self.arg(y) for y in x)
        if isinstance(x, Atom): return "A%d" % x.id
        return x
    def atom(self, a):
        r = self.am.get(a.id)
        if r is None:
            if a.kind == "inv":
                x = self.poly(a.args[0]); r = Decimal(1) / x if x != 0 else Decimal("1e30")
            elif a.kind == "fn" and a.args[0] == "sqrt":
                x = self.poly(a.args[1]); r = abs(x).sqrt()
                if x < 0: r = -r - 1
            elif a.kind == "fn" and a.args[0] in ("floor", "trunc") and len(a.args) == 2 and abs(self.poly(a.args[1]) - self.poly(a.args[1]).to_integral_value()) < Decimal("1e-20"):
                r = self.poly(a.args[1]).to_integral_value()
            elif a.kind == "fn" and a.args[0] == "mod" and len(a.args) == 3:
                # a mod b is a - b*(a div b)
                q = _h((a.kind, ("idiv", self.arg(a.args[1]), self.arg(a.args[2]))), self.seed)
                r = self.poly(a.args[1]) - self.poly(a.args[2]) * q
            elif a.kind == "sym": r = _h((a.kind, a.args[0]), self.seed)
            else: r = _h((a.kind, tuple(self.arg(x) for x in a.args)), self.seed)
            self.am[a.id] = r
        return r
class Stuck(Exception): pass
class Conc(RI):
    """one concrete valuation: small values for the entry state (integers for integer storage, not negative where the type is unsigned), everything else computed"""
    def __init__(self, seed, facts): super().__init__(seed); self.facts = facts; self.bm = {}
    def leaf(self, a, key):
        n = int.from_bytes(hashlib.md5(repr((key, self.seed)).encode()).digest()[:6], "big")
        lo = any(x is of_atom(a) for x in self.facts.for_atom(a)[0])
        if a.isint: return Decimal((n >> 8) % (9 if n % 8 == 0 else 3 if self.seed % 2 else 5) - (0 if lo else 1 if n % 5 == 0 else 0))
        v = Decimal((n >> 8) % 1009) / Decimal(101) if self.seed % 4 < 3 else Decimal((n >> 8) % 4)
        return v if lo or (n >> 4) % 2 else -v
    def arg(self, x):
        if isinstance(x, Poly): return str(self.poly(x).quantize(Decimal("1e-12")))
        if isinstance(x, Bdd): return self.bdd(x)
        if isinstance(x, tuple): return tuple(self.arg(y) for y in x)
        if isinstance(x, Atom): return str(self.atom(x))
        return x
    def atom(self, a):
        r = self.am.get(a.id)
        if r is not None: return r
        if a.kind == "ite": r = self.poly(a.args[1]) if self.bdd(a.args[0]) else self.poly(a.args[2])
        elif a.kind == "inv":
            x = self.poly(a.args[0])
            if abs(x) < Decimal("1e-9"): raise Stuck()
            r = 1 / x
        elif a.kind == "fn":
            n = a.args[0]
            if n == "opq" or n == "lt0?": raise Stuck()
            if n == "sqrt":
                x = self.poly(a.args[1])
                if x < 0: raise Stuck()
                r = x.sqrt()
            elif n in ("floor", "trunc") and len(a.args) == 2:
                x = self.poly(a.args[1]); y = x.to_integral_value(rounding="ROUND_FLOOR" if n == "floor" or x >= 0 else "ROUND_CEILING")
                if x != y and abs(x - x.to_integral_value()) < Decimal("1e-9"): raise Stuck()
                r = y
            elif n in ("mod", "idiv"):
                x = self.poly(a.args[1]); y = self.poly(a.args[2])
                if y <= 0 or x < 0: raise Stuck()
                r = x % y if n == "mod" else x // y
            else: r = self.leaf(a, tuple(self.arg(x) for x in a.args))
        else: r = self.leaf(a, (a.kind,) + tuple(self.arg(x) for x in a.args))
        self.am[a.id] = r
        return r
    def cv(self, i):
        c = _cvlist[i]
        if c.kind == "b":
            a = c.a
            if a.kind == "fn" and a.args[0] == "lt0?": x = self.poly(a.args[1]); k = Decimal(0)
            else: return int(self.atom(a)) % 2 == 1
        else: x = self.poly(c.p); k = Decimal(c.c.numerator) / Decimal(c.c.denominator)
        if x != k and abs(x - k) < Decimal("1e-9") * max(1, abs(k)): raise Stuck()
        return x <= k if c.kind == "le" else x < k
    def bdd(self, b):
        while b.v is not None:
            r = self.bm.get(b.v)
            if r is None: r = self.bm[b.v] = self.cv(b.v)
            b = b.hi if r else b.lo
        return b is TRUE
def separate(t1, t2, assume=TRUE, facts=NOFACTS, n=500, need=3):
    """valuations of the entry state under `assume` for which the two terms have clearly different values (found by evaluation of the terms)"""
    import sys
    hits = []; old = sys.getrecursionlimit(); sys.setrecursionlimit(max(old, 20000)); t0 = time.time()
    for seed in range(n):
        if time.time() - t0 > 20: break
        c = Conc(seed, facts)
        try:
            if not c.bdd(assume): continue
            if isinstance(t1, Bdd) or isinstance(t2, Bdd):
                x = c.bdd(t1 if isinstance(t1, Bdd) else ne(t1, ZERO)); y = c.bdd(t2 if isinstance(t2, Bdd) else ne(t2, ZERO))
                if x != y: hits.append((x, y, c))
            else:
                x = c.poly(P(t1)); y = c.poly(P(t2))
                if abs(x - y) > Decimal("1e-6") * max(abs(x), abs(y), 1): hits.append((x, y, c))
        except (Stuck, ArithmeticError): continue
        if len(hits) >= need: return hits
    return None
_ris = [RI(1), RI(2)]
def more_points(n, seed): _ris.extend(RI(100 + 1000 * seed + i) for i in range(n))
def _close(x, y): return abs(x - y) <= Decimal("1e-20") * max(abs(x), abs(y), Decimal(1))
class _Floor(Rewriter):
    def __init__(self, asg, facts): super().__init__(); self.asg = list(asg); self.facts = facts
    def atom_(self, a):
        if a.kind == "fn" and a.args[0] == "trunc":
            x = lt(a.args[1], ZERO)
            if x is FALSE or (x.v is not None and sat_path(x, self.facts, tuple(self.asg)) is None): return floor_(self.val(a.args[1]))
        return None
def _rounders(p, out, n=0):
    for m, c in p.items:
        for ai, e in m:
            a = _atom_list[ai]
            if a.kind == "fn" and a.args[0] == "floor": out.add(a)
def _incongruent(s):
    pos, neg = {}, {}
    for v, val in s:
        a = _cvlist[v].a if _cvlist[v].kind == "b" else None
        if a is not None and a.kind in ("rd", "lp") and len(a.args) > 1: (pos if val else neg).setdefault((a.kind, a.args[0], a.args[1] if a.kind == "rd" else None), []).append(a)
    if not any(k in neg for k in pos): return False
    es = equalities(s)
    return bool(es) and any(same_on(of_atom(p), of_atom(q), es) for k in pos if k in neg for p in pos[k][:4] for q in neg[k][:4])
def _cube(s, asg=()):
    known = {v for v, val in asg}; c = TRUE
    for v, val in s:
        if v not in known: c = b_and(c, b_var(v) if val else b_not(b_var(v)))
    return c
def _rounding_path(a, b, A, asg, s, facts):
    """a difference found on path s, unless monotonicity of rounding contradicts or settles that path"""
    for n in range(6):
        F = _Floor(s, facts); conj = TRUE; rs = set()
        if not any("floor" in str(x) or "trunc" in str(x) for x in [_cvlist[v].p for v, val in s if _cvlist[v].p is not None] + [a, b]): return Diff(a, b, s)
        for v, val in s:
            x = F.val(b_var(v)); conj = b_and(conj, x if val else b_not(x))
            if _cvlist[v].p is not None: _rounders(F.val(_cvlist[v].p), rs)
        a1, b1 = F.val(a), F.val(b); d = sub(a1, b1)
        _rounders(d, rs)
        if not 2 <= len(rs) <= 4: return Diff(a, b, s)
        extra = TRUE
        for p in rs:
            for q in rs:
                if p is not q and sat_path(b_and(conj, lt(q.args[1], p.args[1])), facts) is None: extra = b_and(extra, le(of_atom(p), of_atom(q)))
        if extra is TRUE: return Diff(a, b, s)
        conj = b_and(conj, extra)
        if sat_path(b_and(conj, lt(d, ZERO)), facts) is not None or sat_path(b_and(conj, lt(ZERO, d)), facts) is not None: return Diff(a, b, s)
        A = b_and(A, b_not(_cube(s, asg))); s = sat_path(A, facts, asg)
        if s is None: return None
    return Diff(a, b, s)
def same_leaf(a, b, asg=()):
    if a is b: return True
    if all(_close(r.poly(a), r.poly(b)) for r in _ris): return True
    es = equalities(asg)
    return bool(es) and same_on(a, b, es)
def equalities(asg):
    """(polynomial, constant) pairs forced equal by an assignment of comparisons"""
    lo, hi = {}, {}
    for v, val in asg:
        cv = _cvlist[v]
        if cv.kind == "b": continue
        d = hi if val else lo; strict = (cv.kind == "lt") == bool(val); c = cv.c
        if strict:
            if not cv.p.isint or Fraction(c).denominator != 1: continue
            c = c - 1 if val else c + 1
        k = cv.p.id
        if k not in d or (c < d[k][1] if val else c > d[k][1]): d[k] = (cv.p, c)
    return [(p, c) for k, (p, c) in lo.items() if k in hi and hi[k][1] == c]
def same_on(a, b, es, turn=0):
    """equality on the variety cut out by the equalities: solve each for one leaf it is affine in"""
    for seed in (3, 4):
        fixed = {}
        for p, c in es:
            done = False
            for m, _ in p.items:
                for ai, e in m:
                    at = _atom_list[ai]
                    if e != 1 or at.id in fixed or at.kind == "inv" or (at.kind == "fn" and at.args[0] == "sqrt"): continue
                    f = []
                    for x in (0, 1, 2):
                        r = RI(seed); r.am.update(fixed); r.am[at.id] = Decimal(x); f.append(r.poly(p) - Decimal(Fraction(c).numerator) / Decimal(Fraction(c).denominator))
                    if not _close(f[2] - f[1], f[1] - f[0]) or f[1] == f[0]: continue
                    fixed[at.id] = -f[0] / (f[1] - f[0]); done = True; break
                if done: break
        if not fixed: return False
        r = RI(seed); r.am.update(fixed)
        for p, c in es:
            if not _close(r.poly(p), Decimal(Fraction(c).numerator) / Decimal(Fraction(c).denominator)): return same_on(a, b, es[1:] + es[:1], turn + 1) if turn + 1 < len(es) else False
        if not _close(r.poly(a), r.poly(b)): return False
    return True

# ------------------------------------------------------------------ printing
def show_atom(a):
    k = a.kind
    if k == "sym": return str(a.args[0])
    if k == "lp": return "%s%s" % (a.args[0], "(%s)" % ", ".join(_showx(x) for x in a.args[1]) if a.args[1] else "")
    if k == "rd":
        pat, ver, idx = a.args[:3]
        parts = pat.split("[*]"); s = parts[0]
        for i, q in zip(idx, parts[1:]): s += "[%s]%s" % (show(i), q)
        return s + ("'" + ver if ver else "")
    if k == "ite": return "(%s ? %s : %s)" % (show_cond(a.args[0]), show(a.args[1]), show(a.args[2]))
    if k == "inv": return "1/(%s)" % show(a.args[0])
    if k == "fn": return "%s(%s)" % (a.args[0], ", ".join(_showx(x) for x in a.args[1:]))
    return "%s(%s)" % (k, ", ".join(_showx(x) for x in a.args))
def _showx(x):
    if isinstance(x, Poly): return show(x)
    if isinstance(x, Bdd): return show_cond(x)
    if isinstance(x, tuple): return "(" + ", ".join(_showx(y) for y in x) + ")"
    return str(x)
def show(p, depth=0):
    if not isinstance(p, Poly): return _showx(p)
    if not p.items: return "0"
    out = []
    for m, c in reversed(p.items):
        f = []
        for ai, e in m:
            s = show_atom(_atom_list[ai]); f.append(s if e == 1 else "%s^%d" % (s, e))
        body = "*".join(f)
        cs = str(c) if c.denominator == 1 or c.denominator < 1000 else "%.6g" % float(c)
        if not body: t = cs
        elif c == 1: t = body
        elif c == -1: t = "-" + body
        else: t = cs + "*" + body
        out.append(t)
    s = " + ".join(out).replace("+ -", "- ")
    return s if len(s) < 600 else s[:600] + "..."
def show_var(i, val=True):
    cv = _cvlist[i]
    if cv.kind == "b": return ("" if val else "!") + show_atom(cv.a)
    op = {("lt", True): "<", ("lt", False): ">=", ("le", True): "<=", ("le", False): ">"}[(cv.kind, val)]
    return "%s %s %s" % (show(cv.p), op, cv.c)
def show_asg(asg):
    return " && ".join(show_var(i, v) for i, v in asg) or "true"
def show_cond(b, n=6):
    if b is TRUE: return "true"
    if b is FALSE: return "false"
    paths = []
    def go(x, acc):
        if len(paths) > n or x is FALSE: return
        if x is TRUE: paths.append(" && ".join(acc)); return
        go(x.hi, acc + [show_var(x.v, True)]); go(x.lo, acc + [show_var(x.v, False)])
    go(b, [])
    s = " || ".join("(%s)" % q if len(paths) > 1 else q for q in paths[:n]) + (" || ..." if len(paths) > n else "")
    return s if len(s) < 800 else s[:800] + "..."
