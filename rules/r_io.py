"""C41-C44: saving and loading."""
import re, itertools, codecs
from rules.util import *
import terms as T, front
from terms import *
from interp import *
from compare import Renamer, Finding
P_ = "InputOutput::"
SAVES = ["saveLevelSetVTK", "saveLevelSetTXT", "saveLevelSetBIN", "saveBoundaryPointsTXT", "saveBoundarySegmentsTXT", "saveAreaFractionsVTK", "saveAreaFractionsTXT"]
LOADS = ["loadLevelSetTXT", "loadLevelSetBIN"]
STREAMS = ("std::basic_ofstream<char>", "std::basic_ifstream<char>", "std::basic_fstream<char>")
def load(ctx, spec=()): ctx.load(["InputOutput"], list(spec))
def named(ctx, m):
    fs = [f for f in ctx.prog.find(P_ + m, None) if "string" in str(front.params(f)[0]["type"])]
    return fs[0] if len(fs) == 1 else None
def numbered(ctx, m):
    fs = [f for f in ctx.prog.find(P_ + m, None) if "string" not in str(front.params(f)[0]["type"])]
    return fs[0] if len(fs) == 1 else None
def text(v):
    """value of a string literal term"""
    a = v.single() if isinstance(v, Poly) else None
    if a is None or a.kind != "fn" or a.args[0] != "str": return None
    s = str(a.args[1])
    if len(s) >= 2 and s[0] == s[-1] == '"': s = s[1:-1]
    try: return codecs.decode(s.encode("latin-1", "backslashreplace"), "unicode_escape")
    except Exception: return s
def fnarg(v):
    a = v.single() if isinstance(v, Poly) else None
    return a if a is not None and a.kind == "fn" else None
def mentions(v, key):
    if isinstance(v, (Ref, Ptr)): return key in repr(v)
    try: return key in show(v)
    except Exception: return key in repr(v)

# ------------------------------------------------------------------ opens, uses, closes
class Chan:
    """one opened file or stream object of a routine"""
    def __init__(s, kind, key, name, mode, ev): s.kind = kind; s.key = key; s.name = name; s.mode = mode; s.ev = ev; s.ok = None
def is_stream(ty): return any(x in ty for x in ("basic_ofstream", "basic_ifstream", "basic_fstream"))
def channels(I):
    out = []; nf = 0
    for e in I.events:
        if e.kind == "lib" and e.data[0] in ("fopen", "fopen64", "freopen"):
            v = e.data[1]; out.append(Chan("FILE", "$file->%d" % nf, v[0], text(v[1]) if len(v) > 1 else None, e)); nf += 1
            out[-1].key = "$file->%d%s" % (nf - 1, "".join("@" + r.name for r in e.loops))
        elif e.kind == "construct" and is_stream(e.data[0]):
            v = e.data[2]; c = Chan("stream", e.data[1].pat, v[0] if v else None, None, e); c.ty = e.data[0]; c.modev = v[1] if len(v) > 1 else None; out.append(c)
        elif e.kind == "method" and e.data[0] == "open" and is_stream(e.data[3]):
            v = e.data[2]
            for c in out:
                if c.kind == "stream" and isinstance(e.data[1], Ref) and c.key == e.data[1].pat: c.name = v[0]; c.modev = v[1] if len(v) > 1 else None; c.ev = e
    return out
GOOD = {"m:good": True, "m:is_open": True, "m:operator bool": True, "m:fail": False, "m:operator!": False, "m:bad": None}
class OpenNorm(T.Rewriter):
    """conditions testing that a file opened -> one atom"""
    def __init__(s, opened): super().__init__(); s.opened = opened
    def cond_(s, i):
        cv = T._cvlist[i]
        if cv.kind != "b": return None
        a = cv.a
        if a.kind == "fn" and a.args[0] in GOOD and GOOD[a.args[0]] is not None:
            st = show(a.args[1]) if isinstance(a.args[1], Poly) else str(a.args[1])
            if re.match(r"(s:open\()?new:std::basic_(o|i|)fstream", st):
                b = b_atom(atom("fn", "opened")); return b if GOOD[a.args[0]] else b_not(b)
        if str(a.args[0]).startswith("nonnull") or (a.kind == "fn" and any("$file->" in str(x) for x in a.args)):
            return b_atom(atom("fn", "opened"))
        return None
OPENED = None
def opened(): return b_atom(atom("fn", "opened"))
def uses_of(I, c):
    for e in I.events:
        if e.kind == "lib" and e.data[0] not in ("fopen", "fopen64"):
            for x in e.data[1]:
                if isinstance(x, (Ptr, Ref)) and c.key in repr(x) and (c.kind == "FILE" or e.data[0] in ("getline",)): yield e; break
        elif e.kind in ("insert", "extract") and isinstance(e.data[0], Ref) and e.data[0].pat == c.key: yield e
        elif e.kind == "method" and isinstance(e.data[1], Ref) and e.data[1].pat == c.key and e.data[0] in ("write", "read", "get", "getline", "put", "seekg", "seekp", "peek", "ignore", "clear"): yield e
def closes_of(I, c):
    for e in I.events:
        if c.kind == "FILE" and e.kind == "lib" and e.data[0] == "fclose" and any(c.key in repr(x) for x in e.data[1]): yield e
        if c.kind == "stream" and e.kind == "method" and e.data[0] == "close" and isinstance(e.data[1], Ref) and e.data[1].pat == c.key: yield e
def c41(ctx):
    """Typestate and guard analysis per named routine: opened with the given name in the right mode; every use guarded by a successful-open test; failed open reaches exit with failure status after a message holding the name; every FILE closed exactly once on each completing path and not used afterwards (streams close by scope)."""
    load(ctx)
    for m in SAVES + LOADS:
        f = named(ctx, m)
        if f is None: ctx.und("%s is gone" % m); continue
        I = ctx.summ(f); fname = P_ + m
        if I.undecided: ctx.und("%s: %s" % (m, I.undecided[:2])); continue
        ch = channels(I)
        if not ch:
            w = next((e for e in I.events if e.kind == "lib" and e.data[0] in ("fprintf", "fputs", "fputc", "fwrite", "fread", "fscanf", "fgets", "fclose") and "uninit(" in repr(e.data[1])), None)
            if w is not None: ctx.fail("uses a file that was never opened", w.loc, fname)
            else: ctx.und("%s: no open recognised" % m)
            continue
        if len(ch) > 1: ctx.und("%s: several files opened" % m); continue
        c = ch[0]; N = OpenNorm(c); ok = opened(); loc = c.ev.loc
        if not mentions(c.name, "$p:0"): ctx.fail("opens something other than the given file name", loc, fname)
        else: ctx.ok()
        if c.ev.pc is not TRUE: ctx.und("%s: conditional open" % m); continue
        save = m.startswith("save")
        if c.kind == "FILE":
            if c.mode is None: ctx.und("%s: open mode" % m)
            elif save and (not c.mode.startswith("w") ) or not save and not c.mode.startswith("r"): ctx.fail("opened in mode \"%s\"" % c.mode, loc, fname)
            else: ctx.ok()
        else:
            mv = mentions_any(c.modev) if c.modev is not None else ""
            if save and "ifstream" in c.ty or not save and "ofstream" in c.ty or save and re.search(r"\bapp\b|\bate\b", mv) or save and "basic_fstream" in c.ty and "out" not in mv or not save and "trunc" in mv:
                ctx.fail("opened as %s %s" % (c.ty, mv), loc, fname)
            elif save and c.modev is not None and re.search(r"\bin\b", mv) and "trunc" not in mv: ctx.fail("opened without truncation", loc, fname)
            else: ctx.ok()
        for e in list(uses_of(I, c)) + list(closes_of(I, c)):
            g = N.val(e.pc)
            r = b_and(g, b_not(ok))
            if r is not FALSE and T.differ(r, FALSE) is not None: ctx.fail("%s uses the file without a successful open" % use_name(e), e.loc, fname)
            else: ctx.ok()
        # failure
        ex = [e for e in I.events if e.kind == "exit"]
        cov = FALSE
        for e in ex:
            g = N.val(e.pc); r = b_and(g, b_not(ok))
            if r is FALSE: continue
            cov = b_or(cov, r)
            st = P(e.data[1][0]).const() if e.data[1] and isinstance(e.data[1][0], (Poly, Bdd)) else None
            if e.data[0] == "exit" and st == 0: ctx.fail("ends with a success status although the file could not be opened", e.loc, fname)
            else: ctx.ok()
        fin = b_and(N.val(I.finalpc), b_not(ok))
        if fin is not FALSE: ctx.fail("completes normally although the file could not be opened", I.events[-1].loc if I.events else loc, fname)
        else: ctx.ok()
        # message naming the file
        msg = FALSE
        for e in I.events:
            if e.kind == "lib" and e.data[0] in ("fprintf", "printf", "perror", "fputs") and "stderr" in repr(e.data[1][0]) + str(e.data[0]) and any(mentions(x, "$p:0") for x in e.data[1][1:]): msg = b_or(msg, N.val(e.pc))
            if e.kind == "insert" and "cerr" in repr(e.data[0]) and mentions(e.data[1], "$p:0"): msg = b_or(msg, N.val(e.pc))
        if fin is FALSE and b_and(cov, b_not(msg)) is not FALSE: ctx.fail("does not name the file it could not open", loc, fname)
        else: ctx.ok()
        # closes
        if c.kind == "FILE":
            cl = [(e, N.val(e.pc)) for e in closes_of(I, c)]
            if any(e.loops for e, g in cl): ctx.fail("closes the file inside a loop", cl[0][0].loc, fname); continue
            tot = FALSE; twice = False
            for e, g in cl:
                if b_and(tot, g) is not FALSE and T.differ(b_and(tot, g), FALSE) is not None: twice = True; ctx.fail("closes the file twice", e.loc, fname)
                tot = b_or(tot, g)
            if not twice: ctx.ok()
            left = b_and(N.val(I.finalpc), b_not(tot))
            if left is not FALSE and T.differ(left, FALSE) is not None: ctx.fail("returns without closing the file", loc, fname)
            else: ctx.ok()
            for e in uses_of(I, c):
                if e.data[0] == "fclose": continue
                for k, g in cl:
                    if k.n < e.n and T.differ(b_and(g, N.val(e.pc)), FALSE) is not None: ctx.fail("%s after the file was closed" % use_name(e), e.loc, fname); break
                else: ctx.ok()
        ctx.sample("%s: %d uses, %d closes" % (m, len(list(uses_of(I, c))), len(list(closes_of(I, c)))))
def mentions_any(v):
    try: return show(v)
    except Exception: return repr(v)
def use_name(e): return e.data[0] if e.kind in ("lib", "method") else e.kind

# ------------------------------------------------------------------ output tapes
CONV = re.compile(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|j|z|t|L)?([diouxXcsfFeEgGaAp%])")
def fmt_items(fmt, vals):
    out = []; pos = 0; i = 0
    for m in CONV.finditer(fmt):
        if m.start() > pos: out.append(("lit", fmt[pos:m.start()]))
        pos = m.end()
        k = m.group(5)
        if k == "%": out.append(("lit", "%")); continue
        cls = "int" if k in "diouxX" else "float" if k in "fFeEgGaA" else "str"
        if cls == "float" and m.group(3) and m.group(3).isdigit() and int(m.group(3)) < 6: cls = "rounded float"
        if i >= len(vals): return None
        v = vals[i]; i += 1
        if cls == "str" and text(v) is not None: out.append(("lit", text(v)))
        elif cls == "int" and isinstance(v, Poly) and v.const() is not None and m.group(0) in ("%d", "%u", "%i"): out.append(("lit", str(int(v.const()))))
        else: out.append(("val", cls, v))
    if pos < len(fmt): out.append(("lit", fmt[pos:]))
    return out if i == len(vals) else None
class Bad(Exception): pass
class Cond(Exception): pass
def tape(I, c):
    """nested list of (guard, item); item = ("lit", s) | ("val", class, term) | ("raw", ref, size) | ("loop", rec, sub)"""
    root = []; stack = [((), root)]
    def at(loops):
        names = tuple(l.name for l in loops); lst = root
        for l in loops:
            if lst and lst[-1][1][0] == "loop" and lst[-1][1][1] is l: lst = lst[-1][1][2]
            else: sub = []; lst.append((l.pre_pc, ("loop", l, sub))); lst = sub
        return lst
    for e in uses_of(I, c):
        items = None; v = e.data[1] if e.kind == "lib" else None
        if e.kind == "lib":
            n = e.data[0]
            if n == "fprintf":
                f = text(v[1])
                if f is None: raise Bad("format of fprintf at %s" % e.loc)
                items = fmt_items(f, list(v[2:]))
                if items is None: raise Bad("format and arguments differ at %s" % e.loc)
            elif n == "fputs":
                if text(v[0]) is None: raise Bad("fputs at %s" % e.loc)
                items = [("lit", text(v[0]))]
            elif n in ("fputc", "putc") and isinstance(v[0], Poly) and v[0].const() is not None: items = [("lit", chr(int(v[0].const())))]
            elif n == "fwrite": items = [("raw", v[0], T.mul(P(v[1]), P(v[2])))]
            elif n in ("fclose", "fflush", "ferror"): continue
            else: raise Bad("%s at %s" % (n, e.loc))
        elif e.kind == "insert":
            x = e.data[1]
            if isinstance(x, (Ref,)): x = I.term(x)
            if text(x) is not None: items = [("lit", text(x))]
            else:
                a = fnarg(x)
                if a is not None and a.args[0] == "func": items = [("lit", "\n")] if str(a.args[1]).startswith("endl") else []
                elif isinstance(x, Poly): items = [("val", "int" if x.isint else "float", x)]
                else: raise Bad("insertion at %s" % e.loc)
        elif e.kind == "method":
            if e.data[0] == "write": items = [("raw", e.data[2][0], P(e.data[2][1]))]
            elif e.data[0] in ("put",) and e.data[2][0].const() is not None: items = [("lit", chr(int(e.data[2][0].const())))]
            elif e.data[0] in ("clear",): continue
            else: raise Bad("%s at %s" % (e.data[0], e.loc))
        lst = at(e.loops)
        def put(pc, it):
            a = it[2].single() if it[0] == "val" and it[1] == "str" and isinstance(it[2], Poly) else None
            if a is not None and a.kind == "ite":            # text chosen by a condition
                put(b_and(pc, a.args[0]), ("val", "str", a.args[1])); put(b_and(pc, b_not(a.args[0])), ("val", "str", a.args[2]))
            elif a is not None and text(it[2]) is not None: lst.append((pc, ("lit", text(it[2])), e.loc))
            elif pc is not FALSE: lst.append((pc, it, e.loc))
        for it in items: put(e.pc, it)
    return root
def all_guards(t, A, out):
    for x in t:
        g = b_restrict(x[0], A)
        out |= b_support(g)
        if x[1][0] == "loop":
            l = x[1][1]; all_guards(x[1][2], b_and(A, l.cond), out)
def project(t, A, pm):
    """items of the tape that are written under A; adjacent text merged"""
    out = []
    for x in t:
        g = b_restrict(x[0], A) if x[1][0] != "loop" else TRUE
        if g is FALSE or b_and(A, x[0]) is FALSE: continue
        if x[1][0] == "loop":
            l = x[1][1]
            if b_and(A, l.pre_pc) is FALSE: continue
            sub = project(x[1][2], b_and(A, l.cond), pm)
            if sub: out.append(["loop", l, sub, l.loc])
            continue
        if g is not TRUE and T.differ(b_and(A, b_not(x[0])), FALSE) is not None:
            rest = b_and(A, b_not(x[0]))
            if x[1][0] == "val" and not any(y is not x and y[1][0] != "loop" and b_and(y[0], rest) is not FALSE and b_and(b_and(y[0], x[0]), A) is FALSE for y in t): raise Cond(x)
            raise Bad("output under a condition at %s" % x[2])
        it = x[1]
        if it[0] == "lit":
            if out and out[-1][0] == "lit": out[-1][1] += it[1]
            else: out.append(["lit", it[1], None, x[2]])
        else: out.append([it[0], it[1], it[2], x[2]])
    for o in out:
        if o[0] == "lit":
            s = re.sub(r"[ \t]+", " ", o[1]); s = re.sub(r" ?\n", "\n", s); o[1] = s
    return [o for o in out if o[0] != "lit" or o[1]]
class TapeCmp:
    def __init__(s, ctx, where, A, facts): s.ctx = ctx; s.where = where; s.A = A; s.lmap = {}; s.n = 0; s.facts = facts
    def bad(s, t, loc): s.ctx.fail(t, loc, s.where); s.stop = True
    def same(s, a, b, A):
        a = Renamer(s.lmap, {}).val(a) if isinstance(a, (Poly, Bdd)) else a
        if not isinstance(a, (Poly, Bdd)) or not isinstance(b, (Poly, Bdd)): return None
        try: return T.differ(P(a), P(b), A) is None
        except T.Budget: return None
    def run(s, X, Y, A, level):
        """X: implementation, Y: reference"""
        i = j = 0
        X = [list(x) for x in X]; Y = [list(y) for y in Y]
        while i < len(X) and j < len(Y):
            x, y = X[i], Y[j]
            if x[0] == "lit" and y[0] == "lit":
                n = min(len(x[1]), len(y[1])); p = 0
                while p < n and x[1][p] == y[1][p]: p += 1
                if p < n: s.bad("writes %r where the documented text is %r" % (x[1][max(0, p - 12):p + 12], y[1][max(0, p - 12):p + 12]), x[3]); return False
                s.ctx.ok()
                x[1] = x[1][n:]; y[1] = y[1][n:]
                if not x[1]: i += 1
                if not y[1]: j += 1
                continue
            if x[0] != y[0]:
                s.bad("writes %s where %s belongs" % (desc(x), desc(y)), x[3]); return False
            if x[0] == "val":
                if x[1] != y[1]: s.bad("writes %s where %s belongs" % (desc(x), desc(y)), x[3]); return False
                r = s.same(x[2], y[2], A)
                if r is None: raise Bad("value written at %s" % x[3])
                if not r: s.bad("writes %s where %s belongs" % (desc(x), desc(y)), x[3]); return False
                s.ctx.ok()
            elif x[0] == "raw":
                u, v = (z.ref if isinstance(z, Ptr) else z for z in (x[1], y[1]))
                if not isinstance(u, Ref) or not isinstance(v, Ref): raise Bad("block written at %s" % x[3])
                if u.pat != v.pat or not all(s.same(p, q, A) for p, q in zip(u.idx, v.idx)): s.bad("writes the block at %s instead of %s" % (u, v), x[3]); return False
                r = s.same(x[2], y[2], A)
                if not r: s.bad("writes a block of %s bytes instead of %s" % (show(x[2]), show(y[2])), x[3]); return False
                s.ctx.ok()
            else:
                l, k = x[1], y[1]
                if (l.trip is None) != (k.trip is None) or l.trip is None: raise Bad("trip count of the loop at %s" % l.loc)
                if not s.same(l.trip, k.trip, A): s.bad("loop writes %s records instead of %s" % (show(l.trip), show(k.trip)), l.loc); return False
                s.lmap[l.name] = k.name
                s.ctx.ok()
                if not s.run(x[2], y[2], b_and(A, k.cond), level + 1): return False
            i += 1; j += 1
        if i < len(X): s.bad("writes %s after the documented content%s" % (desc(X[i]), " of a record" if level else ""), X[i][3]); return False
        if j < len(Y): s.bad("does not write %s" % desc(Y[j]), X[-1][3] if X else s.where); return False
        return True
def desc(x):
    if x[0] == "lit": return "text %r" % x[1][:30]
    if x[0] == "val": return "%s %s" % ("number" if x[1] != "str" else "text", show(x[2])[:80])
    if x[0] == "raw": return "a block"
    return "a list of records"
def tapes_equal(ctx, m, f, s):
    I = ctx.summ(f); ps = front.params(s)
    S = ctx.summ(s, args={q["name"]: Ref("$p:%d" % i, (), front.strip_ref(front.norm_type(q["type"]))) for i, q in enumerate(ps)}, tag="io")
    where = P_ + m
    if I.undecided: ctx.und("%s: %s" % (m, I.undecided[:2])); return
    try:
        ci, cs = channels(I), channels(S)
        if len(ci) != 1: raise Bad("%d files opened" % len(ci))
        ti, ts = tape(I, ci[0]), tape(S, cs[0])
        base = I.finalpc
        opts = set()
        all_guards(ti, base, opts); all_guards(ts, S.finalpc, opts)
        opts = sorted(i for i in opts if T._cvlist[i].kind == "b" and not T._cvlist[i].a.args[0].startswith("k_"))
        if len(opts) > 5: raise Bad("too many options")
        for asg in itertools.product((True, False), repeat=len(opts)):
            A = TRUE
            for o, v in zip(opts, asg): A = b_and(A, T.b_var(o) if v else b_not(T.b_var(o)))
            if b_and(base, A) is FALSE: continue
            pi = project(ti, b_and(base, A), None); ps_ = project(ts, b_and(S.finalpc, A), None)
            c = TapeCmp(ctx, where, A, None)
            if not c.run(pi, ps_, A, 0): return
        ctx.sample("%s: %d option combinations" % (m, 2 ** len(opts)))
    except Bad as e: ctx.und("%s: %s" % (m, e))
    except Cond as e:
        x = e.args[0]; ctx.fail("writes %s only under the condition %s" % (desc(x[1]), show(x[0])[:120]), x[2], where)
def c42(ctx):
    """Output-sequence analysis: everything a save routine writes, as a nested sequence of text, values and record loops with symbolic trip counts, for every combination of options, equals the reference sequence."""
    load(ctx, ["io"])
    for m in SAVES:
        f = named(ctx, m)
        try: s = ctx.prog.one("spec::IO_" + m)
        except Exception as e: ctx.und(e); continue
        if f is None: ctx.und("%s is gone" % m); continue
        tapes_equal(ctx, m, f, s)

# ------------------------------------------------------------------ loaders
FAILING = {"m:fail": True, "m:operator!": True, "m:good": False, "m:operator bool": False}
def state_tests(I, key, n0, n1=None):
    """(method event, condition atom id, value when the stream has failed) for tests of the stream's state after time n0"""
    for e in I.events:
        if e.kind != "method" or not isinstance(e.data[1], Ref) or e.data[1].pat != key or e.n < n0: continue
        if n1 is not None and e.n > n1: continue
        yield e
def test_atom(e):
    v = e.data[4]
    return b_atom(atom("fn", "m:" + e.data[0], v)) if isinstance(v, Poly) else None
def implied(pc, cond):
    """pc implies cond (BDD level, then linear arithmetic)"""
    r = b_and(pc, b_not(cond))
    return r is FALSE or T.differ(r, FALSE) is None
def columns(ctx, A):
    """(number of columns, position of the distance) of a record of the matching save routine's reference"""
    s = ctx.prog.one("spec::IO_saveLevelSetTXT"); ps = front.params(s)
    S = ctx.summ(s, args={q["name"]: Ref("$p:%d" % i, (), front.strip_ref(front.norm_type(q["type"]))) for i, q in enumerate(ps)}, tag="io")
    t = project(tape(S, channels(S)[0]), b_and(S.finalpc, A), None)
    rec = [x for x in t if x[0] == "loop"][0]
    vals = [x for x in rec[2] if x[0] == "val"]
    return len(vals), [i for i, x in enumerate(vals) if "signedDistance" in show(x[2])][0]
def load_common(ctx, m, I, c, first, last, fname):
    """rejections after the last read, effects confined to the field"""
    F_ = I.finalpc
    later = [e for e in state_tests(I, c.key, first)]
    # malformed or short data
    done = False
    for e in later:
        if "m:" + e.data[0] not in FAILING: continue
        t = test_atom(e)
        if t is None: continue
        if e.n > last and not e.loops: pass
        elif e.loops and e.n > first: pass
        else: continue
        bad = t if FAILING["m:" + e.data[0]] else b_not(t)
        if implied(F_, b_not(bad)) or e.loops and (implied(e.loops[-1].pc_end, b_not(bad)) or implied(e.loops[-1].cond, b_not(bad))): done = True; break
    other = [e for e in later if e.data[0] in ("tellg", "gcount", "rdstate", "bad")]
    cnt = None
    if not done and m.endswith("BIN") and first == last and other and all(e.data[0] == "gcount" and e.n > last and not e.loops for e in other): cnt = count_checked(I, F_)
    if done or cnt is True: ctx.ok()
    elif cnt is False: ctx.fail("completes when fewer bytes than the level set needs were read (short file)", other[0].loc, fname)
    elif any(e.data[0] in ("tellg", "gcount", "rdstate") for e in other): ctx.und("%s: validation by %s" % (m, other[0].data[0]))
    else: ctx.fail("completes although reading the data failed (short or malformed file)", c.ev.loc, fname)
    # surplus data
    done = False; pre = None
    skipped = [e for e in I.events if e.n > last and (e.kind in ("manip", "extract") and isinstance(e.data[0], Ref) and e.data[0].pat == c.key or e.kind == "method" and e.data[0] in ("peek", "get", "ignore", "read", "getline") and isinstance(e.data[1], Ref) and e.data[1].pat == c.key or e.kind == "lib" and e.data[0] == "getline") and not e.loops]
    ws = m.endswith("BIN") or any(e.kind in ("manip", "extract") or e.data[0] in ("ignore", "getline") for e in skipped)
    for e in later:
        if e.n < last or e.loops: continue
        t = test_atom(e)
        if e.data[0] == "eof" and t is not None and implied(F_, t):
            if not any(x.n < e.n for x in skipped): pre = e
            else: done = True
        if "m:" + e.data[0] in FAILING and t is not None and any(x.n < e.n for x in skipped):
            bad = t if FAILING["m:" + e.data[0]] else b_not(t)
            if implied(F_, bad): done = True
        if e.data[0] in ("peek", "get"):
            sy = [(show(of_atom(a)), a) for a in support_syms(F_)]
            vs = [of_atom(a) for t_, a in sy if t_.startswith("m:%s(" % e.data[0])]
            ends = [num(-1)] + [of_atom(a) for t_, a in sy if "eof" in t_.split("(")[0]]
            if any(implied(F_, T.eq(v, x)) for v in vs for x in ends):
                if ws or not m.endswith("TXT"): done = True
                else: pre = e
    if done: ctx.ok()
    elif pre is not None: ctx.fail("tests for the end of the file before reading past the last value: every file the save routine writes is rejected", pre.loc, fname)
    elif any(e.data[0] in ("tellg", "gcount", "rdstate", "seekg", "get") and e.n > last for e in later): ctx.und("%s: end of file validated by %s" % (m, [e.data[0] for e in later if e.n > last]))
    else: ctx.fail("completes although the file holds more data than the level set", c.ev.loc, fname)
    # nothing else is touched
    for e in I.events:
        if e.kind == "write" and isinstance(e.data[0], Ref) and e.data[0].pat.startswith("$p:1."):
            if not e.data[0].pat.startswith("$p:1.signedDistance["): ctx.fail("changes %s" % e.data[0], e.loc, fname)
            else: ctx.ok()
        if e.kind == "exit" and e.data[0] == "exit":
            st = P(e.data[1][0]).const() if e.data[1] and isinstance(e.data[1][0], Poly) else None
            if st == 0: ctx.fail("rejects a file with a success status", e.loc, fname)
            else: ctx.ok()
def count_checked(I, F_):
    """does completion imply that the last block read delivered all the bytes? None: not decided"""
    g = {show(of_atom(a)): of_atom(a) for a in support_syms(F_) if show(of_atom(a)).startswith("m:gcount(")}
    if len(g) != 1: return None
    g = list(g.values())[0]; N = I.read(Ref("$p:1.mesh.nNodes", (), "unsigned int")); w = T.mul(N, num(8))
    bad = b_and(b_and(F_, T.ge(N, num(1))), b_and(T.ge(g, ZERO), T.lt(g, w)))
    return bad is FALSE or T.differ(bad, FALSE) is None
def support_syms(b):
    out = set()
    for i in b_support(b):
        x = T._cvlist[i]
        if x.p is not None: out |= {T._atom_list[k] for mono, q in x.p.items for k, pw in mono}
        else: out.add(x.a)
    return out
def in_range(ctx, e, idx, N, pc, m, fname, what):
    bad = b_and(pc, b_or(T.lt(idx, ZERO), T.ge(idx, N)))
    if bad is FALSE or T.differ(bad, FALSE) is None: ctx.ok(); return True
    ctx.fail("%s node %s, which may lie outside the field" % (what, show(idx)), e.loc, fname); return False
def c43_txt(ctx, m, f):
    I = ctx.summ(f); fname = P_ + m
    if I.undecided: ctx.und("%s: %s" % (m, I.undecided[:2])); return
    ch = channels(I)
    if len(ch) != 1 or ch[0].kind != "stream": ctx.und("%s: no single stream" % m); return
    c = ch[0]; N = I.read(Ref("$p:1.mesh.nNodes", (), "unsigned int"))
    W_ = [e for e in I.events if e.kind == "write" and isinstance(e.data[0], Ref) and e.data[0].pat == "$p:1.signedDistance[*]"]
    if not W_: ctx.fail("stores nothing into the field", c.ev.loc, fname); return
    if any(len(e.loops) != 1 for e in W_) or len({e.loops[0].name for e in W_}) != 1: ctx.und("%s: field not stored in one record loop" % m); return
    L = W_[0].loops[0]
    if len(W_) > 1: ctx.und("%s: several stores per record" % m); return
    for e in W_: in_range(ctx, e, e.data[0].idx[0], N, b_and(b_and(e.pc, L.cond), T.ge(L.k, ZERO)), m, fname, "stores into")
    if L.trip is None: ctx.und("%s: trip count of the record loop" % m); return
    if T.differ(L.trip, N, b_and(L.pre_pc, T.ge(N, ZERO))) is not None: ctx.fail("reads %s records instead of one per node" % show(L.trip), L.loc, fname); return
    ctx.ok()
    isXY = b_atom_of_param(I, 2)
    rewound(ctx, m, I, c, min([e.n for e in I.events if e.kind == "extract" and e.loops and e.loops[0] is L] or [W_[0].n]), N, fname)
    ex = [e for e in I.events if e.kind == "extract" and e.loops and e.loops[0] is L]
    if not ex or any(not isinstance(e.data[0], Ref) or e.data[0].pat != c.key or len(e.loops) != 1 for e in ex): ctx.und("%s: records are not extracted straight from the file" % m); return
    for A, nm in ((isXY, "with coordinates"), (b_not(isXY), "without coordinates")):
        base = b_and(A, L.cond)
        seq = []
        if varying(ctx, L, ex, base, columns(ctx, A)[0], nm, fname): continue
        for e in ex:
            g = b_and(e.pc, base)
            if g is FALSE: continue
            if not implied(b_and(base, L.pre_pc), b_restrict(e.pc, base)): ctx.und("%s: extraction under a condition at %s" % (m, e.loc)); return
            seq.append(e)
        n, p = columns(ctx, A)
        v = W_[0].data[1]; g = W_[0]
        if len(seq) != n: ctx.fail("reads %d values per record %s, the save routine writes %d" % (len(seq), nm, n), seq[-1].loc if seq else L.loc, fname); continue
        ctx.ok()
        # which extraction produced the stored value?
        src = None
        if isinstance(v, Poly):
            v = b_restrict_val(v, base)
            for i, e in enumerate(seq):
                w = next((x for x in I.events if x.kind == "write" and x.n > e.n and repr(x.data[0]) == repr(e.data[1])), None)
                if w is not None and w.data[1] is v: src = i
        if src is None:
            if isinstance(v, Poly) and not any(str(a.args[0]).startswith("in(") for a in v.syms): ctx.fail("stores %s, not a value read" % show(v)[:80], g.loc, fname)
            elif isinstance(v, Poly) and v.single() is None: ctx.fail("stores %s instead of the value read" % show(v)[:80], g.loc, fname)
            else: ctx.und("%s: origin of the stored value" % m)
            continue
        if src != p: ctx.fail("stores value %d of a record %s, the distance is value %d" % (src + 1, nm, p + 1), seq[src].loc, fname)
        else: ctx.ok()
        if T.differ(W_[0].data[0].idx[0], L.k, b_and(base, L.pre_pc)) is not None: ctx.fail("puts record %s into node %s" % (show(L.k), show(W_[0].data[0].idx[0])), g.loc, fname)
        else: ctx.ok()
    load_common(ctx, m, I, c, min(e.n for e in ex), max(e.n for e in ex), fname)
def rewound(ctx, m, I, c, first, N, fname):
    """a pass over the file before the records are read: it is undone by going back to the beginning with a stream that works, and its count accepts a file with one line per node"""
    isit = lambda e: e.n < first and e.kind in ("method", "extract") and isinstance(e.data[1 if e.kind == "method" else 0], Ref) and e.data[1 if e.kind == "method" else 0].pat == c.key
    evs = [e for e in I.events if isit(e)]
    early = [e for e in evs if e.loops and (e.kind == "extract" or isinstance(e.data[4], Poly) and ">>" in show(e.data[4]))]
    if not early: return
    loops = {id(e.loops[0]): e.loops[0] for e in early}
    end = max(e.n for e in early)
    after = [e for e in evs if e.n > end and e.kind == "method" and not e.loops]
    if len(loops) != 1 or any(e.data[0] in ("open", "close", "swap", "rdbuf", "operator=") for e in after): return
    seeks = [e for e in after if e.data[0] == "seekg"]
    if not seeks:
        ctx.fail("reads the records from where counting the lines of the file ended instead of from its beginning", early[0].loc, fname); return
    s = seeks[-1]; a = s.data[2]
    at = P(a[0]).const() if a and isinstance(a[0], Poly) else None
    if at is not None and at != 0 and (len(a) == 1 or "beg" in str(a[1])): ctx.fail("reads the records from position %s of the file" % at, s.loc, fname)
    else: ctx.ok()
    if not any(e.data[0] == "clear" and e.n < seeks[0].n for e in after):
        ctx.fail("goes back to the beginning while the stream is still in the failed state the counting loop ended with: every file is rejected", s.loc, fname)
    else: ctx.ok()
    # the count of a file the save routine writes
    L = list(loops.values())[0]; F_ = I.finalpc
    for key, v in L.ind.items():
        if not isinstance(v, Poly): continue
        for x in support_syms(F_):
            t = show(of_atom(x))
            if t == "ω%s:%s" % (L.name, key):
                n_ = T.subst_any(v, {L.k.single(): N})
                bad = b_and(T.subst_any(F_, {x: n_}), T.ge(N, ONE))
                if bad is FALSE or T.differ(bad, FALSE) is None: ctx.fail("rejects every file with one line per node, as the save routine writes them", L.loc, fname)
                else: ctx.ok()
def varying(ctx, L, ex, base, n, nm, fname):
    """extractions that depend on which record it is: count them case by case (only conditions that do not come from the file)"""
    base = b_and(base, b_and(L.pre_pc, T.ge(L.k, ZERO)))
    for e in ex:
        g = b_and(e.pc, base)
        if g is FALSE or implied(base, b_restrict(e.pc, base)): continue
        if any("$in" in show(of_atom(a)) or "m:" in show(of_atom(a)) or "in(" in show(of_atom(a)) for a in support_syms(b_restrict(e.pc, base))): return False
        for case in (b_and(base, e.pc), b_and(base, b_not(e.pc))):
            if case is FALSE or T.differ(case, FALSE) is None: continue
            st = [True if implied(case, b_restrict(x.pc, case)) else False if b_and(x.pc, case) is FALSE or T.differ(b_and(x.pc, case), FALSE) is None else None for x in ex]
            if None not in st and sum(st) != n:
                ctx.fail("reads %d values in some records %s, the save routine writes %d" % (sum(st), nm, n), e.loc, fname); return True
    return False
def b_restrict_val(v, A):
    try: return under(v, A)
    except Exception: return v
def b_atom_of_param(I, k):
    v = I.read(Ref("$p:%d" % k, (), "bool")); return v
def c43_bin(ctx, m, f):
    I = ctx.summ(f); fname = P_ + m
    if I.undecided: ctx.und("%s: %s" % (m, I.undecided[:2])); return
    ch = channels(I)
    if len(ch) != 1 or ch[0].kind != "stream": ctx.und("%s: no single stream" % m); return
    c = ch[0]; N = I.read(Ref("$p:1.mesh.nNodes", (), "unsigned int"))
    rd = [e for e in I.events if e.kind == "method" and e.data[0] == "read" and isinstance(e.data[1], Ref) and e.data[1].pat == c.key]
    if not rd: ctx.fail("reads nothing into the field", c.ev.loc, fname); return
    if len(rd) != 1: ctx.und("%s: several block reads" % m); return
    e = rd[0]; t = e.data[2][0]; sz = e.data[2][1]
    t = t.ref if isinstance(t, Ptr) else t
    if isinstance(t, Iter): t = t.ref.at(t.pos, "double")
    if not isinstance(t, Ref): ctx.und("%s: destination of the read" % m); return
    if t.pat != "$p:1.signedDistance[*]":
        if t.pat.startswith("$p:1"): ctx.fail("reads into %s" % t, e.loc, fname)
        else: ctx.und("%s: reads into a buffer" % m)
        return
    pc = e.pc
    if not e.loops:
        if T.differ(t.idx[0], ZERO, pc) is not None: ctx.fail("reads the block to node %s onwards" % show(t.idx[0]), e.loc, fname)
        else: ctx.ok()
        w = T.mul(N, num(8))
        if not isinstance(sz, Poly) or T.differ(sz, w, b_and(pc, T.ge(N, ZERO))) is not None: ctx.fail("reads %s bytes instead of one double per node" % show(e.data[2][1]), e.loc, fname)
        else: ctx.ok()
    elif len(e.loops) == 1 and e.loops[0].trip is not None:
        L = e.loops[0]
        if T.differ(L.trip, N, L.pre_pc) is not None: ctx.fail("reads %s values instead of one per node" % show(L.trip), e.loc, fname)
        else: ctx.ok()
        in_range(ctx, e, t.idx[0], N, b_and(b_and(pc, L.cond), T.ge(L.k, ZERO)), m, fname, "reads into")
        if T.differ(t.idx[0], L.k, b_and(pc, L.cond)) is not None: ctx.fail("reads record %s into node %s" % (show(L.k), show(t.idx[0])), e.loc, fname)
        else: ctx.ok()
        if sz is not num(8): ctx.fail("reads %s bytes per node" % show(e.data[2][1]), e.loc, fname)
        else: ctx.ok()
    else: ctx.und("%s: read loop" % m); return
    if not implied(I.finalpc, pc): ctx.fail("completes without reading the block when %s" % show(b_and(I.finalpc, b_not(pc)))[:120], e.loc, fname)
    else: ctx.ok()
    load_common(ctx, m, I, c, e.n, e.n, fname)
def c43(ctx):
    """Value-flow and typestate analysis of the loaders: the record loop runs once per node, extracts as many values as the matching save reference writes, stores the one in the distance column into the node of that record; every store index lies in the field; normal completion implies a stream-state test after the last read succeeded and an end-of-file test made after reading past the last value; nothing else of the level set is written; rejections end with failure status."""
    load(ctx, ["io"])
    ctx.assumptions += ["a stream stays failed after a failed extraction until cleared (iostream contract)"]
    for m, g in (("loadLevelSetTXT", c43_txt), ("loadLevelSetBIN", c43_bin)):
        f = named(ctx, m)
        if f is None: ctx.und("%s is gone" % m); continue
        g(ctx, m, f)

# ------------------------------------------------------------------ numbered forms
# kind prefix, extension, parameter number of the directory, arguments of the named form (parameter numbers after the file name)
NUMBERED = {"saveLevelSetVTK": ("level-set_", ".vtk"), "saveLevelSetTXT": ("level-set_", ".txt"), "saveLevelSetBIN": ("level-set_", ".bin"),
            "loadLevelSetTXT": ("level-set_", ".txt"), "loadLevelSetBIN": ("level-set_", ".bin"),
            "saveBoundaryPointsTXT": ("boundary-points_", ".txt"), "saveBoundarySegmentsTXT": ("boundary-segments_", ".txt"),
            "saveAreaFractionsVTK": ("area_", ".vtk"), "saveAreaFractionsTXT": ("area_", ".txt")}
class NameEval:
    """value of a string or string-stream term as a list of text, parameters and formatted numbers"""
    def __init__(s, I): s.I = I
    def atom(s, v):
        if not isinstance(v, Poly): raise Bad("file name")
        a = v.single()
        if a is None: raise Bad("file name %s" % show(v)[:80])
        return a
    def st(s, v):
        t = text(v)
        if t is not None: return [("s", t)] if t else []
        c = v.const() if isinstance(v, Poly) else None
        m = re.match(r"^\$p:(\d+)$", show(v)) if isinstance(v, Poly) else None
        if m: return [("p", int(m.group(1)))]
        if c is not None: raise Bad("character in the file name")
        a = s.atom(v); n = str(a.args[0]); k = a.args[1:]
        if a.kind == "fn":
            if n == "m:str" and len(k) == 1: return s.stream(k[0])["out"]
            if n in ("m:c_str", "m:data"): return s.st(k[0])
            if n.startswith("new:std::basic_string<char>"): return s.st(k[0]) if k else []
            if n in ("operator+", "s:append", "operator+="): return s.st(k[0]) + s.st(k[1])
            if n == "s:clear": return []
            if n in ("s:assign", "operator="): return s.st(k[-1])
            if n == "it" or n == "&": return s.buffer(v)
        m = re.match(r"^lib:to_string\((.*)\)", show(v))
        if m: return [("num", m.group(1), 0, " ", "right")]
        if "%" in show(v) and not n.startswith("m:"): return s.buffer(v)
        raise Bad("file name %s" % show(v)[:80])
    def buffer(s, v):
        m = re.search(r"(%[\w.$]+)", show(v)); 
        ev = [e for e in s.I.events if m and e.kind == "lib" and e.data[0] in ("snprintf", "sprintf") and m.group(1) in repr(e.data[1][0])]
        if len(ev) != 1 or ev[0].pc is not TRUE: raise Bad("file name buffer")
        vals = list(ev[0].data[1][1:]) if ev[0].data[0] == "sprintf" else list(ev[0].data[1][2:])
        f = text(vals[0])
        if f is None: raise Bad("file name format")
        out = []; pos = 0; i = 1
        for x in CONV.finditer(f):
            if x.start() > pos: out.append(("s", f[pos:x.start()]))
            pos = x.end()
            if x.group(5) == "%": out.append(("s", "%")); continue
            if x.group(5) == "s": out += s.st(vals[i])
            else: out.append(("num", show(vals[i]), int(x.group(2) or 0), "0" if "0" in x.group(1) else " ", "left" if "-" in x.group(1) else "right"))
            i += 1
        if pos < len(f): out.append(("s", f[pos:]))
        return out
    def stream(s, v):
        a = s.atom(v); n = str(a.args[0]); k = a.args[1:]
        if n.startswith("new:std::basic_ostringstream") or n.startswith("new:std::basic_stringstream"):
            if k: raise Bad("initialised string stream")
            return {"out": [], "width": 0, "fill": " ", "align": "right"}
        if not k: raise Bad("stream %s" % show(v)[:60])
        S = dict(s.stream(k[0]))
        if n == "s:str": S["out"] = s.st(k[1])
        elif n == "s:width": S["width"] = s.int(k[1])
        elif n == "s:fill": S["fill"] = chr(s.int(k[1]))
        elif n in ("s:clear", "s:flush"): pass
        elif n == "<<":
            x = k[1]; b = x.single() if isinstance(x, Poly) else None; nm = show(x)
            if b is not None and b.kind == "fn" and b.args[0] == "func":
                w = str(b.args[1])
                if w in ("right", "left", "internal"): S["align"] = w
                elif w in ("dec", "skipws", "flush"): pass
                else: raise Bad("manipulator %s" % w)
            elif "setw(" in nm: S["width"] = int(re.search(r"setw\((\d+)\)", nm).group(1))
            elif "setfill(" in nm: S["fill"] = chr(int(re.search(r"setfill\((\d+)\)", nm).group(1)))
            elif re.match(r"^\$p:\d+$", nm) and PT.get(nm) in INTT: S["out"] = S["out"] + [("num", nm, S["width"], S["fill"], S["align"])]; S["width"] = 0
            else:
                t = s.st(x)
                if S["width"] and not (t and all(y[0] == "num" for y in t)): raise Bad("width applied to text")
                if S["width"]: t = [("num", y[1], max(S["width"], y[2]), S["fill"], S["align"]) for y in t]
                S["out"] = S["out"] + t; S["width"] = 0
        else: raise Bad("stream operation %s" % n)
        return S
    def int(s, v):
        c = v.const() if isinstance(v, Poly) else None
        if c is None: raise Bad("width or fill")
        return int(c)
INTT = ("unsigned int", "int", "unsigned long", "long")
def merge(ps):
    out = []
    for p in ps:
        if p[0] == "s" and out and out[-1][0] == "s": out[-1] = ("s", out[-1][1] + p[1])
        else: out.append(p)
    return out
def showname(ps): return "".join(p[1] if p[0] == "s" else "<directory>" if p[0] == "p" else "<number width %d fill '%s' %s>" % p[2:] for p in ps)
class EmptyNorm(T.Rewriter):
    """tests of the directory, for a directory of n characters"""
    def __init__(s, d, n): super().__init__(); s.d = "$p:%d" % d; s.n = n
    def cond_(s, i):
        cv = T._cvlist[i]; e = TRUE if s.n == 0 else FALSE
        if cv.kind == "b" and cv.a.kind == "fn" and any(isinstance(x, Poly) and show(x) == s.d for x in cv.a.args[1:]):
            n = cv.a.args[0]
            if n == "m:empty": return e
            if n == "operator==" and any(text(x) == "" for x in cv.a.args[1:] if isinstance(x, Poly)): return e
            if n == "operator!=" and any(text(x) == "" for x in cv.a.args[1:] if isinstance(x, Poly)): return b_not(e)
        if cv.kind in ("lt", "le"):
            l = [a for mono, q in cv.p.items for k, w in mono for a in [T._atom_list[k]]]
            if len(l) == 1 and show(of_atom(l[0])) in ("m:size(%s)" % s.d, "m:length(%s)" % s.d):
                b = T.subst(T.b_var(i), {l[0]: num(s.n)})
                if b in (TRUE, FALSE): return b
        return None
def dropped(I, v, d):
    """a name that leaves out the directory depending on its text (not for a test against a fixed name)"""
    cs = sorted(T.cond_support(v)) if isinstance(v, Poly) else []
    if not 1 <= len(cs) <= 3 or any("operator" in show(T.b_var(i)) or "$p:%d" % d not in show(T.b_var(i)) for i in cs): return None
    for vals in itertools.product((True, False), repeat=len(cs)):
        A = TRUE
        for i, x in zip(cs, vals): A = b_and(A, T.b_var(i) if x else b_not(T.b_var(i)))
        if not T.sat(A): continue
        try: ps = merge(NameEval(I).st(under(v, A)))
        except Bad: continue
        if ("p", d) not in ps and any(p[0] == "num" for p in ps): return ps, show(A)[:80]
    return None
def defaults(f):
    """default arguments in the declaration"""
    out = {}
    for p in front.params(f):
        d = [c for c in p.get("inner", []) if c.get("kind") not in ("FullComment", "ParagraphComment")]
        out[p.get("name")] = lit(d[0]) if d and p.get("init") else None
    return out
def lit(n):
    while n.get("kind") not in ("CXXBoolLiteralExpr", "IntegerLiteral", "FloatingLiteral", "StringLiteral") and n.get("inner"): n = n["inner"][0]
    return (n.get("kind"), n.get("value"))
def c44(ctx):
    """Forwarding and string-construction analysis: each numbered form calls its named form exactly once on every path, with the object and every option in the matching position and a file name whose constructed pieces are [directory '/'] prefix number(width 4, zero fill) extension; options shared by the two forms have the same default."""
    load(ctx)
    for m in SAVES + LOADS:
        f = numbered(ctx, m); g = named(ctx, m); fname = P_ + m
        if f is None or g is None: ctx.und("%s is gone" % m); continue
        fp, gp = front.params(f), front.params(g)
        I = ctx.summ(f, noinline=(fname,))
        if I.undecided: ctx.und("%s: %s" % (m, I.undecided[:2])); continue
        calls = [e for e in I.events if e.kind == "call" and e.data[0] == fname]
        calls = [e for e in calls if e.data[3] == g["_key"]] if calls else calls
        loc = calls[0].loc if calls else "src/InputOutput.cpp"
        if not calls:
            if channels(I): ctx.und("%s writes the file itself" % m)
            else: ctx.fail("never reaches the named form", loc, fname)
            continue
        if any(e.loops for e in calls): ctx.und("%s: forwards in a loop" % m); continue
        cov = FALSE
        for e in calls:
            if b_and(cov, e.pc) is not FALSE: ctx.fail("forwards twice", e.loc, fname)
            cov = b_or(cov, e.pc)
        if cov is not TRUE and T.differ(b_not(cov), FALSE) is not None: ctx.fail("does not forward when %s" % show(b_not(cov))[:120], loc, fname)
        else: ctx.ok()
        # parameters by role
        dirp = [i for i, p in enumerate(fp) if i > 0 and "string" in str(p["type"])]
        if len(dirp) != 1: ctx.und("%s: directory parameter" % m); continue
        ext = NUMBERED[m][1]
        # by position: object, then the options in the same order
        rest = [i for i in range(1, len(fp)) if i != dirp[0]]
        if len(rest) != len(gp) - 1: ctx.fail("takes %d options, the named form %d" % (len(rest) - 1, len(gp) - 2), loc, fname); continue
        for e in calls:
            args = e.data[2]
            for j, i in enumerate(rest):
                want = "$p:%d" % i; got = args[j + 1] if j + 1 < len(args) else None
                if isinstance(got, (Ref, Poly, Bdd)):
                    gs = got.pat if isinstance(got, Ref) else show(b_restrict(got, e.pc) if isinstance(got, Bdd) else got)
                    if gs != want: ctx.fail("passes %s as %s of the named form" % (nm_of(gs, fp), gp[j + 1].get("name")), e.loc, fname)
                    else: ctx.ok()
                else: ctx.und("%s: argument %d" % (m, j + 1))
            for dlen in (0, 1, 2, 3, 10, 1000):
                wantdir = dlen > 0; N = EmptyNorm(dirp[0], dlen)
                try:
                    v = N.val(P(args[0]) if not isinstance(args[0], Ref) else I.term(args[0]))
                    if N.val(e.pc) is FALSE: continue
                    ps = merge(NameEval(I).st(under(v, N.val(e.pc))))
                except Bad as x:
                    lost = dropped(I, under(v, N.val(e.pc)), dirp[0]) if wantdir else None
                    if lost: ctx.fail("file name %s leaves out the directory when %s" % (showname(lost[0]), lost[1]), e.loc, fname)
                    else: ctx.und("%s: %s" % (m, x))
                    break
                want = ([("p", dirp[0]), ("s", "/" + NUMBERED[m][0])] if wantdir else [("s", NUMBERED[m][0])])
                k = len(want); ok = ps[:k] == want and len(ps) == k + 2 and ps[k][0] == "num" and ps[k + 1] == ("s", ext)
                if not ok:
                    if any(p[0] == "num" for p in ps): ctx.fail("file name %s%s" % (showname(ps), (" for a directory name of %d characters" % dlen if dlen < 4 else "") if wantdir else " when no directory is given"), e.loc, fname)
                    elif not any(p[0] == "num" for p in ps): ctx.fail("file name %s without the number" % showname(ps), e.loc, fname)
                    break
                _, val, w, fill, al = ps[k]
                if val != "$p:0" or w != 4 or fill != "0" or al == "left": ctx.fail("file name %s, number %s" % (showname(ps), nm_of(val, fp)), e.loc, fname); break
                else: ctx.ok()
        # defaults
        df, dg = decl_defaults(ctx, f), decl_defaults(ctx, g)
        for j, i in enumerate(rest):
            if j == 0: continue
            a, b = df[i], dg[j + 1]
            if a != b: ctx.fail("option %s defaults to %s, in the named form to %s" % (fp[i].get("name"), a, b), "src/InputOutput.h", fname)
            else: ctx.ok()
        ctx.sample({"function": fname, "forwards_at": calls[0].loc, "arguments": len(gp)})
def nm_of(gs, fp):
    m = re.match(r"^\$p:(\d+)$", gs)
    return fp[int(m.group(1))].get("name") if m and int(m.group(1)) < len(fp) else gs
def decl_defaults(ctx, f):
    """default arguments over all declarations of the function"""
    out = [None] * len(front.params(f)); ty = [front.norm_type(p.get("type")) for p in front.params(f)]
    rec = ctx.prog.records.get(f.get("_cls")) or {"methods": []}
    for d in list(rec["methods"]) + [f]:
        if d.get("name") != f.get("name"): continue
        ps = front.params(d)
        if [front.norm_type(p.get("type")) for p in ps] != ty: continue
        for i, p in enumerate(ps):
            if p.get("init"):
                k = [c for c in p.get("inner", []) if "Comment" not in c.get("kind", "")]
                if k: out[i] = lit(k[-1])
    return out
RULES = {"C41": c41, "C42": c42, "C43": c43, "C44": c44}
