"""Check driver: loads the program, runs the rule of one property, reports and writes evidence."""
import sys, os, time, json, signal, traceback, re, glob, gc
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, ROOT)
import front, interp
import terms as T
from front import AnalysisBroken
from interp import *
import compare
from compare import Cmp, Finding

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()
BASE_SRC = ["Boundary", "FastMarchingMethod", "Heap", "Hole", "InputOutput", "LevelSet", "Mesh", "Sensitivity", "Optimise"]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        if tier == "thorough": T.more_points(8, seed)
        self.fails = []; self.unds = []; self.known = []
        self.nobl = 0; self.ndis = 0; self.functions = set(); self.samples = []; self.notes = []; self.assumptions = []
        self.nloops = 0; self.nevents = 0; self.sites = 0
        self.memo = {}; self.prog = None; self.specs = []; self.rule_text = ""
    @property
    def thorough(self): return self.tier == "thorough"
    # ---------------------------------------------------------------- loading
    def load(self, mods, specs=(), flags=()):
        srcs = []
        for m in mods:
            f = os.path.join(front.REPO, "src", m + ".cpp")
            if os.path.exists(f): srcs.append(f)
            else: self.und("source %s.cpp is gone" % m)
        # any other translation unit of the library (a helper moved to a new file)
        for f in sorted(glob.glob(os.path.join(front.REPO, "src", "*.cpp"))):
            if f not in srcs and os.path.basename(f)[:-4] not in BASE_SRC: srcs.append(f)
        extra = [os.path.join(ROOT, "spec", s + ".cpp") for s in specs]
        self.memo = {}
        self.prog = front.load(srcs, flags=flags, extra=extra)
        for s in self.prog.broken_extra: self.und("reference %s does not compile against the current headers: %s" % s)
        return self.prog
    # ---------------------------------------------------------------- reporting
    def fail(self, text, loc, where="", path=""):
        self.nobl += 1
        self.fails.append(Finding(text, loc, where, path))
    def und(self, text): self.unds.append(str(text)[:600])
    def ok(self, n=1): self.nobl += n; self.ndis += n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    # ---------------------------------------------------------------- summaries
    def fn(self, qual, n=None, types=None): return self.prog.one(qual, n, types)
    def summ(self, f, noinline=(), unroll=9, opts=None, args=None, undef=False, tag=None, pre=T.TRUE):
        key = (f["_key"], tuple(sorted(noinline)), unroll, tuple(sorted((opts or {}).items())), tag, pre.id)
        I = self.memo.get(key)
        if I is None:
            I = Interp(self.prog, noinline=noinline, unroll=unroll, opts=opts)
            I.summarise(f, args=args, undef=undef, pre=pre)
            self.memo[key] = I
            self.functions.add(f["_qual"]); self.nevents += len(I.events)
            for l in all_loops(I.loops): self.nloops += 1
            for q in getattr(I, "inlined", ()): self.functions.add(q)
        return I
    def equiv(self, impl, spec, n=None, types=None, noinline=(), unroll=9, opts=None, what=None, self_arg=True, **kw):
        """implementation function must equal the reference function on the selected observables"""
        try:
            cands = self.prog.find(impl, n, types)
            if not cands: self.und("%s is gone" % impl); return None
            f = self.prog.one(impl, n, types); s = self.prog.one("spec::" + spec)
        except AnalysisBroken as e: self.und(e); return None
        cls = f.get("_cls")
        t0 = time.time()
        def attempt(noinline, unroll, pre=T.TRUE):
            I = self.summ(f, noinline, unroll, opts, pre=pre)
            sp = front.params(s); args = {}
            if cls and self_arg: args[sp[0]["name"]] = Ref("$this", (), cls); sp = sp[1:]
            for i, q in enumerate(sp): args[q["name"]] = Ref("$p:%d" % i, (), front.strip_ref(front.norm_type(q["type"])))
            S = self.summ(s, noinline, unroll, opts, args=args, undef=f.get("kind") == "CXXConstructorDecl", pre=pre)
            k2 = dict(kw); k2["assume"] = b_and(kw.get("assume", T.TRUE), pre)
            return Cmp(I, S, name=impl, **k2).run(), S
        c, S = attempt(noinline, unroll); first = (len(c.out), len(c.und)); how = ""
        if c.out or c.und:
            # other ways to cut the two functions into pieces: further unrolling, and looking inside the callees the difference is about
            t1 = time.time(); each, total = (120, 300) if self.thorough else (40, 90)
            for ni, un in self.cuts(c, noinline, unroll):
                r = self.limited(lambda: attempt(ni, un), min(each, total - (time.time() - t1)))
                if r is None: continue
                c2, S2 = r
                if not c2.out and not c2.und: c, S = c2, S2; how = "unroll %d, inlined %s" % (un, sorted(set(noinline) - set(ni))); break
                if not c.out and c2.out and not c2.und: c, S = c2, S2; how = "unroll %d" % un
            if c.out or c.und:
                # one case of a condition on the entry state at a time (a loop written once per case against a loop that tests it)
                for vs in self.splits(c):
                    if c.out and not first[0]: break
                    cases = [T.TRUE]
                    for v in vs: cases = [b_and(x, y) for x in cases for y in (T.b_var(v), b_not(T.b_var(v)))]
                    cases = [b_and(x, self.unsigned_facts(vs)) for x in cases]
                    res = []
                    for pre in cases:
                        if not T.sat(pre): continue
                        r = self.limited(lambda: attempt(noinline, unroll, pre), min(each, total - (time.time() - t1)))
                        if r is not None and r[0].out and not r[0].structural and not c.out and c.structural:
                            # the shapes only agree once this case is singled out, and there the results differ
                            c, S = r; how = "case %s" % T.show(pre); break
                        if r is None or r[0].out or r[0].und: break
                        res.append(r)
                    else:
                        c, S = res[0]; how = "case distinction on %s" % [T.show(T.b_var(v)) for v in vs]; break
        self.nobl += c.obl; self.ndis += c.obl - len(c.out) - sum(1 for u in c.und if "budget" in u or "not comparable" in u or "not modelled" in u)
        for x in c.out: x.where = x.where or impl; self.fails.append(x)
        for u in c.und: self.und("%s: %s" % (impl, u))
        for e in S.events:
            if e.kind == "lossy": self.fail("the storage the reference writes to has type %s, too narrow for %s" % (e.data[1], T.show(e.data[0])), impl, impl)
        self.narrow(c.I, impl); self.small(c, impl)
        self.sample({"function": impl, "reference": spec, "loops_matched": c.nloops, "obligations": c.obl, "seconds": round(time.time() - t0, 2)})
        if how: self.notes.append("%s: first attempt left %d differences and %d undecided; decided with %s" % (impl, first[0], first[1], how))
        return c
    def narrow(self, I, impl):
        """counters of one or two bytes stepped in loops with no small constant bound"""
        for e in I.events:
            if e.kind != "count": continue
            r, ty = e.data; bound = 1; lim = 127 if interp.NARROW[ty] == 1 else 32767
            for l in e.loops:
                if r.pat not in l.mod: continue
                t = l.trip.const() if isinstance(l.trip, T.Poly) else None
                if l.trip is None: bound = None; break
                if t is None: bound = lim + 1; break
                bound *= t
            if bound is not None and bound > lim: self.fail("counter of type %s overflows: nothing bounds the number of steps by %d" % (ty, lim), e.loc, impl)
    def small(self, c, impl):
        """local tables filled by position with fewer entries than the reference needs"""
        def size(X, p):
            v = X.mem.d.get(p + ".$size")
            if isinstance(v, T.Poly): return v
            m = re.search(r"\[(\d+)\]$", interp.PT.get(p, "")) or re.search(r", ?(\d+)>$", interp.PT.get(p, ""))
            return T.num(int(m.group(1))) if m else None
        for a, b in c.locmap.items():
            if not isinstance(a, str) or not any(k.startswith(a + "[") for k in (getattr(c, "larr", None) or {})): continue
            x, y = size(c.I, a), size(c.S, b)
            if x is None or y is None: continue
            d = T.sub(x, y).const()
            if d is not None and d < 0: self.fail("local table %s has %s entries, up to %s are stored" % (compare.pretty(a), T.show(x), T.show(y)), next((e.loc for e in c.I.events if e.kind == "write" and isinstance(e.data[0], interp.Ref) and e.data[0].pat.startswith(a + "[")), impl), impl)
    def unsigned_facts(self, vs):
        out = T.TRUE
        for v in vs:
            cv = T.condvar(v); t = cv.p if cv.p is not None else of_atom(cv.a)
            for a in compare.find_atoms(t, lambda a: a.kind == "rd" and interp.is_unsigned(interp.PT.get(a.args[0], ""))): out = b_and(out, T.ge(of_atom(a), T.num(0)))
        return out
    def splits(self, c):
        n = {}
        for X in (c.I, c.S):
            ks = {l.katom for l in all_loops(X.loops)}
            for l in all_loops(X.loops):
                for g in (l.pre_pc, l.start_pc if hasattr(l, "start_pc") else T.TRUE):
                    for v in b_support(g):
                        cv = T.condvar(v); t = cv.p if cv.p is not None else of_atom(cv.a)
                        if all_syms(t) or compare.find_atoms(t, lambda a: a in ks or a.kind in ("lp", "fn")): continue
                        n[v] = n.get(v, 0) + 1
        vs = sorted(n, key=lambda v: -n[v])[:4]
        return [(v,) for v in vs] + [(a, b) for i, a in enumerate(vs) for b in vs[i + 1:]]
    def cuts(self, c, noinline, unroll):
        names = set(); txt = " ".join([x.text for x in c.out] + c.und)
        for n in noinline:
            if n in txt: names.add(n)
        rest = tuple(x for x in noinline if x not in names)
        other = [u for u in (9, 2, 1) if u != unroll]
        out = [(noinline, u) for u in other]
        if names: out += [(rest, u) for u in [unroll] + other]
        return out
    def limited(self, f, secs):
        if secs <= 1: return None
        left = signal.alarm(max(1, int(secs))); t = time.time()
        try: return f()
        except (Timeout, AnalysisBroken, T.Budget, RecursionError, MemoryError): return None
        finally:
            if left: signal.alarm(max(1, int(left - (time.time() - t))))
            else: signal.alarm(0)

def load_known():
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l)
                if m: out.append(m.groups())
    return out

def main(argv):
    prop = argv[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import rules
    sys.setrecursionlimit(200000)
    import threading; threading.stack_size(512 * 1024 * 1024)
    ctx = Ctx(prop, tier, seed)
    rule = rules.RULES[prop]
    limit = 300 if tier == "quick" else 780
    signal.signal(signal.SIGALRM, _alarm)
    ctx.rule_text = (rule.__doc__ or "").strip()
    fns = rule if isinstance(rule, (list, tuple)) else [rule]
    signal.alarm(limit)
    try:
        rule(ctx)
    except Timeout: ctx.und("analysis budget of %d s exhausted" % limit)
    except AnalysisBroken as e: ctx.und("analysis not possible: %s" % e)
    except MemoryError: ctx.memo = {}; gc.collect(); ctx.und("analysis ran out of memory")
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        ctx.und("analysis failed: %r at %s" % (e, " | ".join(x.strip() for x in tb[-3:-1])))
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
    signal.alarm(0)
    # known findings
    known = load_known(); viol = []
    for f in ctx.fails:
        k = [t for p, rx, t in known if p == prop and re.search(rx, "%s %s %s" % (f.where, f.loc, f.text))]
        if k: ctx.known.append((f, k[0]))
        else: viol.append(f)
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": ctx.rule_text or "static rule", "obligations": ctx.nobl, "discharged": ctx.ndis,
                       "functions_analysed": sorted(ctx.functions), "loops_summarised": ctx.nloops, "effects_recorded": ctx.nevents,
                       "sites": ctx.sites, "undecided": ctx.unds[:40], "samples": ctx.samples or ["(none)"],
                       "source_files": [os.path.relpath(x, front.REPO) if x.startswith(front.REPO) else os.path.basename(x) for x in (ctx.prog.files if ctx.prog else [])],
                       "known_findings": [repr(f) for f, _ in ctx.known][:20], "notes": ctx.notes,
                       "findings": [repr(f) for f in viol][:20]},
          "assumptions": ctx.assumptions, "wall_s": round(wall, 3), "violations": len(viol)}
    out = os.path.join(ROOT, "evidence", prop + ".json")
    with open(out, "w") as fh: json.dump(ev, fh, indent=1)
    for u in ctx.unds: print("UNDECIDED: %s" % u)
    seen = set()
    for f, t in ctx.known:
        if t not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, t)); seen.add(t)
    if viol:
        rp = os.path.join(ROOT, "evidence", prop + ".violation.txt")
        with open(rp, "w") as fh:
            fh.write("property %s\n" % prop)
            for f in viol: fh.write("%s\n  in %s\n  %s\n  when %s\n" % (f.loc, f.where, f.text, f.path or "always"))
        for f in viol[:8]: print("  %s [%s] %s%s" % (f.loc, f.where, f.text, (" when " + f.path) if f.path else ""))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d undecided=%d (%.1fs)" % (prop, ctx.nobl, ctx.ndis, len(ctx.unds), wall))
    return 0
