"""Function analysis: effects of one function under a scenario, matched against expected effects.

A scenario is a condition on the entry state and on the results of calls.  Under a scenario every write,
call and return of the function is compared with what the property prescribes.  Three outcomes:
holds, violated (the write/call/condition is understood and wrong), undecided (not understood).
"""
import vg, decide
from vg import VG, Poly, Node

UNRES = {"mu", "inst", "xv", "undef", "other", "cexpr", "kx", "bv"}
NORETURN = {"abort", "__assert_fail", "exit", "_exit", "__assert", "__assert_perror_fail", "quick_exit"}

class FA:
    def __init__(self, mod, fname, structs, immutable, hints=None, seed=1, cfg=None, tries=400, roaddr=None):
        self.mod = mod; self.name = fname
        self.g = VG(mod, fname, immutable=immutable, structs=structs, roaddr=roaddr)
        self.c = self.g.c; self.structs = structs
        self.d = decide.Decider(self.c, seed, hints or {}, tries, cfg)
    # ---- term construction
    def arg(self, i, w=64): return self.g.val(self._argval(i))
    def _argval(self, i):
        from ir import Val
        n, t = self.g.f.params[i]
        return Val("local", n, t)
    def K(self, v, w=64): return self.g.k(v, w)
    def off(self, struct, path): return vg.field_of(self.mod, self.structs, struct, path)[0]
    def fld(self, base, struct, path): return self.g.ld(base, struct, path)
    def faddr(self, base, struct, path): return self.g.add(base, self.K(self.off(struct, path)))
    def sizeof(self, struct): return self.structs[struct]["size"]
    def add(self, *xs):
        r = xs[0]
        for x in xs[1:]: r = self.g.add(r, x)
        return r
    def sub(self, a, b): return self.g.sub(a, b)
    def mul(self, a, b): return self.g.mul(a, b)
    def band(self, a, b): return self.c.apply("bitand", lambda x, y: self.g._bit("and", x, y), a, b)
    def lshr(self, a, b): return self.c.apply("lshr", lambda x, y: self.g._shift("lshr", x, y), a, b)
    def shl(self, a, b): return self.c.apply("shl", lambda x, y: self.g._shift("shl", x, y), a, b)
    def sext(self, a, w=64): return self.c.apply(("ext", w, True), lambda p: self.g._extp(p, w, True), a)
    def zext(self, a, w=64): return self.c.apply(("ext", w, False), lambda p: self.g._extp(p, w, False), a)
    def eq(self, a, b): return self.g.icmp("eq", a, b)
    def ult(self, a, b): return self.g.icmp("ult", a, b)
    def slt(self, a, b): return self.g.icmp("slt", a, b)
    def nz(self, a): return self.c.NOT(self.c.apply("eq0", lambda q: self.c.beq(q, self.c.const(q.w, 0)), a))
    def isz(self, a): return self.c.NOT(self.nz(a))
    def ite(self, a, b, d): return self.c.ite(a, b, d)
    def AND(self, *x): return self.c.AND(*x)
    def OR(self, *x): return self.c.OR(*x)
    def NOT(self, x): return self.c.NOT(x)
    def s(self, n): return self.c.s(n)
    def resolved(self, n):
        """the term is built from entry state, loads and call results only"""
        c = self.c
        for a in c.deep_atoms(n):
            if c.alist[a][0] in UNRES: return False
        if isinstance(n, Node):
            for b in c.support(n):
                if c.blist[b][0] not in ("eq", "ult", "slt", "bit0", "argb"): return False
        return True
    def same(self, A, B, G=None):
        """terms equal under G: canonical, or equal on every sampled valuation (at least one)"""
        c = self.c
        if A is B: return True
        G = c.T if G is None else G
        if self.d.diff(A, B, G) is not None: return False
        return True
    def differs(self, A, B, G=None): return self.d.diff(A, B, c_or_T(self.c, G))
    def feasible(self, G): return self.d.feasible(G) is not None
    # ---- loads
    def loads(self, addr, w=64, G=None):
        """load instructions reading addr (canonical address equality, or equality under G)"""
        out = []
        g = self.g
        for b in g.cfg.rpo:
            for i in g.f.bmap[b].insts:
                if i.op == "load" and g.width(i.ty) == w:
                    a = g.val(i.args[0])
                    if a is addr: out.append((i, g.val(g._resval(i))))
        return out
    def unify(self, nodes):
        """treat the given load values as one value: returns a substitution function"""
        c = self.c
        first = nodes[0]
        subs = []
        for n in nodes[1:]:
            if n is first or n.b is not None: continue
            a = c.single(n.leaf)
            if a is not None: subs.append(a)
        def f(x):
            for a in subs: x = self.g.subst(x, a, first)
            return x
        return f
    def view(self, G, sub=None, cfg=None, inv=False):
        self.d.cfg = cfg
        return View(self, G, sub, inv)
    def settled(self, b):
        """the condition depends only on quantities drawn from the invariants (configuration, page size, checked results)"""
        c = self.c; k = c.blist[b]
        if k[0] not in ("eq", "ult", "slt", "bit0"): return False
        H = self.d.hints
        for a in c.deep_atoms(k):
            t = c.alist[a]
            if t[0] == "load":
                nm = c.names.get(a)
                if not (nm and ("field", nm[0], nm[2]) in H and (nm[2] in decide.Env.FIXED or "attr." + (nm[2] or "") in decide.Env.FIXED)): return False
                if nm[2] in ("free_list_head", "next", "next_unused"): return False
            elif t[0] == "call":
                if ("call", t[1]) not in H and ("call", t[1], t[2]) not in H: return False
            elif t[0] == "arg":
                if ("fixarg", t[1]) not in H: return False
            elif t[0] in UNRES or t[0] in ("k",): return False
        return True
    def implied(self, G, nodes, lits):
        """tests of the code which the scenario settles although they are spelt differently from it (no valuation of the
        scenario makes them come out the other way)"""
        c = self.c; bs = set(); out = []; done = {b for b, v in lits}; sup = set(); c.support(G, sup)
        for x in nodes: c.support(x, bs)
        for b in sorted(bs):
            k = c.blist[b]
            if b in done or b in sup or k[0] not in ("eq", "ult", "slt", "bit0"): continue
            at = c.deep_atoms(k)
            if any(c.alist[a][0] in UNRES or c.alist[a][0] in ("k", "kx") for a in at): continue
            t = c.node(b, c.T, c.F)
            can = [v for v in (True, False) if self.d.diff(c.AND(G, t if v else c.NOT(t)), c.F) is not None]
            if len(can) == 1: out.append((b, can[0]))
        return out
    def invariants(self, nodes, cfg, n=160):
        """conditions that have one truth value under every valid configuration sampled"""
        import random
        c = self.c; bs = set()
        for x in nodes: c.support(x, bs)
        bs = sorted(b for b in bs if self.settled(b))
        seen = {b: set() for b in bs}
        r = random.Random(7)
        for t in range(n):
            if not bs: break
            e = decide.Env(c, r, self.d.hints, cfg)
            for b in list(bs):
                try: seen[b].add(e.bool(b))
                except RecursionError: seen[b] |= {True, False}
                if len(seen[b]) == 2: bs.remove(b)
        return [(b, next(iter(seen[b]))) for b in bs if len(seen[b]) == 1]

def c_or_T(c, G): return c.T if G is None else G

class Item:
    __slots__ = ("e", "top", "its", "addr", "val", "args", "claimed", "loops", "kind", "name", "res")
    def __repr__(self): return "<%s %s>" % (self.kind, self.e.site)

class Area:
    """bytes { base + sum k_i*stride_i + [0,len) } written with one value (fill), or copied from src"""
    def __init__(self, kind, base, dims, ln, val, item, skips): self.kind, self.base, self.dims, self.len, self.val, self.item, self.skips = kind, base, dims, ln, val, item, skips

class View:
    """the effects of a function under scenario G"""
    def __init__(self, fa, G, sub=None, inv=False):
        self.fa = fa; self.c = fa.c; self.G = G; self.g = fa.g; self.sub = sub
        self.lits = self.c.implied_literals(G)
        if inv:
            ns = []
            for e in self.g.effects():
                ns += [self.R(x) for l, x in self.g.iter_guards(e.block)]
                ns += [self.R(x) for x in [e.addr, e.val] + list(e.args or []) if isinstance(x, Node)]
            rv = self.g.ret_value()
            if isinstance(rv, Node): ns.append(self.R(rv))
            self.lits = self.lits + fa.invariants(ns, fa.d.cfg)
        self.lits = self.lits + fa.implied(G, [self.R(x) for e in self.g.effects() for l, x in self.g.iter_guards(e.block) if l is None], self.lits)
        self._infeasible = set()
        self.items = []; self.dead = []
        for e in self.g.effects():
            it = self._item(e)
            if it is None: continue
            (self.dead if e.doomed else self.items).append(it)
    def R(self, n):
        if n is None or not isinstance(n, Node): return n
        if self.sub: n = self.sub(n)
        for b, v in self.lits: n = self.c.restrict(n, b, v)
        return n
    def prune(self, n):
        """drop decision paths of n that no valuation of the scenario reaches"""
        return n
    def _item(self, e):
        c = self.c
        gs = self.g.iter_guards(e.block)
        top = self.R(gs[0][1]) if gs and gs[0][0] is None else c.T
        if top is c.F: return None
        if top is not c.T and not self.fa.feasible(c.AND(self.G, top)): return None
        it = Item(); it.e = e; it.kind = e.kind; it.claimed = False; it.top = top; it.name = e.name
        GG = c.AND(self.G, top)
        lits = c.implied_literals(GG) if GG is not c.F else []
        def R(n):
            n = self.R(n)
            if isinstance(n, Node):
                for b, v in lits: n = c.restrict(n, b, v)
            return n
        it.its = [(l, R(x)) for l, x in gs if l is not None]
        if any(x is c.F for l, x in it.its): return None
        it.addr = R(e.addr); it.val = R(e.val); it.args = [R(a) for a in e.args] if e.args is not None else None; it.res = e.res
        it.loops = e.loops
        return it
    def calls(self, *names, dead=False):
        return [i for i in (self.dead if dead else self.items) if i.kind == "call" and i.name in names]
    def stores(self): return [i for i in self.items if i.kind == "store"]
    def is_local(self, addr):
        """address inside an alloca"""
        if addr.b is not None: return False
        ats = self.c.atoms_of(addr.leaf)
        return any(self.c.alist[a][0] == "alloca" for a in ats)
    def always(self, it):
        """the effect happens on every path of the scenario; None or a Diff"""
        c = self.c
        g = it.top
        for l, x in it.its: g = c.AND(g, x)
        return self.fa.d.diff(g, c.T, self.G)
    # ---- expectations
    def find_store(self, addr, w=None):
        """live stores outside loops whose address equals addr in this scenario"""
        out = []
        for it in self.stores():
            if it.loops: continue
            if w is not None and it.e.width != w: continue
            if self.fa.same(it.addr, addr, self.c.AND(self.G, it.top)): out.append(it)
        return out
    # ---- sweeps
    def affine(self, n, loops):
        """n (leaf) = A + sum s_i*k_i: returns (A poly, {loop: s poly}) or None"""
        c = self.c
        if n.b is not None or isinstance(n.leaf, bool): return None
        p = n.leaf; A = {}; S = {}
        kas = {self.g.k_atom(l): l for l in loops}
        for m, co in p.d.items():
            ks = [a for a in m if a in kas]
            rest = tuple(a for a in m if a not in kas)
            for a in rest:
                if any(x in kas for x in c.deep_atoms(c.alist[a])): return None
            if not ks: A[m] = co
            elif len(ks) == 1: S.setdefault(kas[ks[0]], {})[rest] = co
            else: return None
        return c.poly(p.w, A), {l: c.poly(p.w, d) for l, d in S.items()}
    def area_of(self, it):
        """Area for a store in loops or a fill/copy call, or None"""
        c = self.c; fa = self.fa; g = self.g
        if it.kind == "store":
            base, val, kind, ln = it.addr, it.val, "fill", fa.K(it.e.width)
        elif it.kind == "call" and (it.name.startswith("llvm.memset") or it.name in ("memset",)):
            base, val, kind, ln = it.args[0], it.args[1], "memset", it.args[2]
        elif it.kind == "call" and it.name == "bzero":
            base, val, kind, ln = it.args[0], fa.K(0, 8), "memset", it.args[1]
        elif it.kind == "call" and (it.name.startswith(("llvm.memcpy", "llvm.memmove")) or it.name in ("memcpy", "memmove", "mempcpy")):
            base, val, kind, ln = it.args[0], it.args[1], "copy", it.args[2]
        else: return None
        r = self.affine(base, it.loops)
        if r is None: return None
        A, S = r
        kas = {g.k_atom(l) for l in it.loops}
        if any(k in c.deep_atoms(ln) for k in kas): return None
        if kind != "copy" and any(k in c.deep_atoms(val) for k in kas): return None
        dims = []
        base = c.leaf(A)
        for l in it.loops:
            if l.K is None: return None
            K = self.R(l.K)
            s = S.get(l)
            if s is None or not s.d: continue        # same bytes rewritten
            if self._neg(s):
                base = fa.add(base, fa.mul(c.leaf(s), fa.sub(K, fa.K(1)))); s = c.pneg(s)
            dims.append((c.leaf(s), K))
        skips = [(l, x) for l, x in it.its if x is not c.T]
        # contiguous dimension folds into the length
        lc = c.cval(ln.leaf) if ln.b is None else None
        for i, (s, K) in enumerate(dims):
            if s is ln:
                ln = fa.mul(K, ln) if lc is None else fa.mul(K, fa.K(lc)); dims.pop(i); break
        a = Area(kind, base, dims, ln, val, it, skips)
        a.early = [x for l in it.loops for x in self.early_exits(l, it.top)]
        return a
    def early_exits(self, l, top):
        """[(site, condition)]: ways to leave the counted loop l before its last iteration and go on"""
        c = self.c; g = self.g; out = []
        if l.counter is None: return out
        u, s = l.counter
        t = g.f.bmap[u].insts[-1]
        cd = g.val(t.args[0]); cont = cd if t.extra[1] == s else c.NOT(cd)
        for e in l.exits:
            if e == l.counter or e[1] in g.cfg.doomed: continue
            x = g._region(l, l.header).get(("e", e[0], e[1]), c.F)
            for b, v in c.implied_literals(cont): x = c.restrict(x, b, v)
            x = self.R(g.simp(x))
            if x is c.F or not self.fa.feasible(c.AND(self.G, top, x)): continue
            out.append((g.site(g.f.bmap[e[0]].insts[-1]), x))
        return out
    def _neg(self, p):
        half = 1 << (p.w - 1)
        return bool(p.d) and all(v >= half for v in p.d.values())
    # ---- conditions that compare memory with a value
    def differ(self, b):
        """brk atom b as 'some word of an area differs from a value': (base, dims, len, value, extra cond) or None"""
        c = self.c; fa = self.fa; g = self.g
        k = c.blist[b]
        if k[0] != "brk": return None
        bi = g.break_info(b)
        if bi is None: return None
        l, e, cond = bi
        cond = g.simp(cond)
        if l.counter is not None:      # drop the loop's own continue test
            u, s = l.counter
            t = g.f.bmap[u].insts[-1]
            cd = g.val(t.args[0]); cont = cd if t.extra[1] == s else c.NOT(cd)
            for x, v in c.implied_literals(cont): cond = c.restrict(cond, x, v)
        cond = self.R(cond)
        return self._differ_cond(cond, [l])
    def _differ_cond(self, cond, loops):
        c = self.c; fa = self.fa; g = self.g
        # single literal?
        ls = c.implied_literals(cond)
        conj = c.AND(*[c.node(b, c.T, c.F) if v else c.node(b, c.F, c.T) for b, v in ls])
        if conj is not cond or not ls: return None
        inner = [(b, v) for b, v in ls if c.blist[b][0] == "brk"]
        if len(inner) == 1 and inner[0][1]:
            rest = [(b, v) for b, v in ls if (b, v) != inner[0]]
            l2, e2, cd2 = g.break_info(inner[0][0])
            if l2.counter is not None:
                u, s = l2.counter
                t = g.f.bmap[u].insts[-1]
                cd = g.val(t.args[0]); cont = cd if t.extra[1] == s else c.NOT(cd)
                for x, v in c.implied_literals(cont): cd2 = c.restrict(cd2, x, v)
            r = self._differ_cond(self.R(g.simp(cd2)), loops + [l2])
            if r is None: return None
            kas = {g.k_atom(l) for l in loops}
            for b, v in rest:
                if any(k in c.deep_atoms(c.blist[b]) for k in kas): return None
            return r[:4] + (c.AND(r[4], *[c.node(b, c.T, c.F) if v else c.node(b, c.F, c.T) for b, v in rest]),)
        if inner: return None
        # find the comparison literal
        kas = {g.k_atom(l) for l in loops}
        dep = [(b, v) for b, v in ls if any(k in c.deep_atoms(c.blist[b]) for k in kas)]
        rest = [(b, v) for b, v in ls if (b, v) not in dep]
        if len(dep) != 1: return None
        b, v = dep[0]
        k = c.blist[b]
        if k[0] != "eq" or v: return None
        p = k[1]
        lo = [a for a in c.atoms_of(p) if c.alist[a][0] == "load" and any(q in c.deep_atoms(c.alist[a][1]) for q in kas)]
        if len(lo) != 1: return None
        a = lo[0]
        co = p.d.get((a,))
        if co not in (1, (1 << p.w) - 1): return None
        val = c.padd(p, c.poly(p.w, {(a,): 1}), -1) if co == 1 else c.padd(p, c.poly(p.w, {(a,): 1}))
        val = c.pneg(val) if co == 1 else val
        if any(q in c.deep_atoms(val) for q in kas): return None
        r = self.affine(c.leaf(c.alist[a][1]), loops)
        if r is None: return None
        A, S = r
        base = c.leaf(A); dims = []; ln = fa.K(c.alist[a][2] // 8)
        for l in loops:
            s = S.get(l)
            if s is None or not s.d or l.K is None: return None
            K = self.R(l.K)
            if self._neg(s): base = fa.add(base, fa.mul(c.leaf(s), fa.sub(K, fa.K(1)))); s = c.pneg(s)
            if c.leaf(s) is ln: ln = fa.mul(K, ln); continue
            dims.append((c.leaf(s), K))
        return base, dims, ln, c.leaf(val), c.AND(*[c.node(b, c.T, c.F) if v else c.node(b, c.F, c.T) for b, v in rest])
    def aborts(self):
        """[(item, condition)] for every way the scenario ends the process"""
        return [(it, it.top) for it in self.dead if it.kind == "call" and it.name in NORETURN]

# ------------------------------------------------------------------ checking a view against expectations
HARMLESS = {"fprintf", "printf", "perror", "puts", "fputs", "fputc", "fwrite", "putc", "fflush", "dprintf", "vfprintf", "strerror", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0",
    "pthread_mutex_lock", "pthread_mutex_unlock", "memcmp", "bcmp", "strlen", "llvm.va_start", "llvm.va_end", "llvm.prefetch.p0", "snprintf", "asm"}

class Chk:
    def __init__(self, rep, view, label, defprops=()):
        self.rep, self.v, self.fa, self.c, self.label = rep, view, view.fa, view.c, label
        self.defprops = tuple(defprops)
        self.areas = None
    def where(self): return "%s [%s]" % (self.fa.name, self.label)
    def ok(self, props, rule, d=""): self.rep.ok(props, rule, self.where(), d)
    def und(self, props, rule, d=""): self.rep.und(props, rule, self.where(), d)
    def bad(self, props, rule, d, site=None): self.rep.bad(props, rule, self.where(), d, site)
    def s(self, n): return self.c.s(n)
    # ---- unknown writes
    def unknown_writes(self):
        """reasons why a write to an arbitrary place might be hidden from the analysis"""
        out = []
        for it in self.v.items:
            if it.claimed: continue
            if it.kind == "store" and not self.v.is_local(it.addr):
                if not self.fa.resolved(self._nok(it.addr)): out.append(it)
            elif it.kind == "call" and it.name not in HARMLESS and not it.name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.memset", "llvm.memcpy", "llvm.memmove")):
                if it.name in ("memset", "bzero", "memcpy", "memmove"): continue
                if it.name in self.known_calls: continue
                out.append(it)
        return out
    known_calls = frozenset()
    def _nok(self, n): return n
    # ---- single stores
    def store(self, props, rule, addr, val, cond=None, what="", width=8):
        v, fa, c = self.v, self.fa, self.c
        cond = c.T if cond is None else cond
        ms = v.find_store(addr)
        for it in ms: it.claimed = True
        name = what or self.s(addr)[:120]
        if not ms:
            if cond is c.F or not fa.feasible(c.AND(v.G, cond)): self.ok(props, rule, "not written: " + name); return None
            near = [it for it in v.stores() if not it.claimed and not it.loops and not v.is_local(it.addr)]
            uw = self.unknown_writes()
            if uw: self.und(props, rule, "no store to %s recognised; unresolved write at %s" % (name, uw[0].e.site)); return None
            d = "%s is never written (expected value %s)" % (name, self.s(val)[:300])
            if near: d += "; nearest write: [%s] := %s at %s" % (self.s(near[0].addr)[:200], self.s(near[0].val)[:200], near[0].e.site)
            self.bad(props, rule, d, near[0].e.site if near else None)
            return None
        G = c.F; good = True
        for it in ms:
            G = c.OR(G, it.top)
            if it.e.width != width: self.bad(props, rule, "%s written with width %d instead of %d" % (name, it.e.width, width), it.e.site); good = False; continue
            d = fa.differs(it.val, val, c.AND(v.G, it.top))
            if d is not None:
                if not fa.resolved(it.val): self.und(props, rule, "value stored to %s not resolved: %s" % (name, self.s(it.val)[:200])); good = False
                else: self.bad(props, rule, "value stored to %s: %s" % (name, d.text()), it.e.site); good = False
        d = fa.differs(G, cond, v.G)
        if d is not None:
            if not fa.resolved(G): self.und(props, rule, "condition of the store to %s not resolved: %s" % (name, self.s(G)[:200]))
            else: self.bad(props, rule, "store to %s happens under the wrong condition: %s" % (name, d.text()), ms[0].e.site)
            good = False
        if good: self.ok(props, rule, "[%s] := %s" % (name, self.s(val)[:160]))
        return ms
    def nostore(self, props, rule, addr, what):
        ms = self.v.find_store(addr)
        for it in ms:
            it.claimed = True
            self.bad(props, rule, "%s must not be written here, but is set to %s" % (what, self.s(it.val)[:200]), it.e.site)
        if not ms: self.ok(props, rule, "not written: " + what)
    # ---- areas
    def all_areas(self):
        if self.areas is None:
            self.areas = []
            self.opaque = []
            for it in self.v.items:
                isst = it.kind == "store" and not self.v.is_local(it.addr)
                iscall = it.kind == "call" and (it.name.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")) or it.name in ("memset", "bzero", "memcpy", "memmove"))
                if iscall and self.v.is_local(it.args[0]): continue
                if not isst and not iscall: continue
                a = self.v.area_of(it)
                if a is None: self.opaque.append(it)
                else: self.areas.append(a)
            self._merge()
        return self.areas
    def _merge(self):
        """join a peeled first/last iteration with the loop over the others"""
        fa = self.fa; ar = self.areas
        again = True
        while again:
            again = False
            for y in ar:
                if len(y.dims) != 1: continue
                S, K = y.dims[0]
                for x in ar:
                    if x is y or x.dims or x.kind != y.kind or x.val is not y.val: continue
                    if x.item.top is not y.item.top: continue
                    if x.len is not y.len and not fa.same(x.len, y.len, self.v.G): continue
                    if fa.add(x.base, S) is y.base: nb = x.base
                    elif fa.add(y.base, fa.mul(S, K)) is x.base: nb = y.base
                    else: continue
                    z = Area(y.kind, nb, [(S, fa.add(K, fa.K(1)))], y.len, y.val, y.item, y.skips)
                    z.also = [x.item]; z.early = x.early + y.early; ar.remove(x); ar.remove(y); ar.append(z); again = True
                    break
                if again: break
    def sweep(self, props, rule, base, dims, ln, val, kind="fill", what=""):
        """every byte of the area is given the value (skipping iterations whose content already matches)"""
        v, fa, c = self.v, self.fa, self.c
        ars = self.all_areas()
        def kmatch(a): return (a.kind == "copy") == (kind == "copy")
        cand = [a for a in ars if kmatch(a) and len(a.dims) == len(dims) and fa.same(a.base, base, c.AND(v.G, a.item.top)) and a.item.kind + a.kind != "storefillX"]
        if len(dims) == 0 or True:
            cand = [a for a in cand if a.item.loops or a.item.kind == "call" or fa.same(a.len, ln, v.G)]
        if not cand:
            uw = self.unknown_writes() + [o for o in self.opaque if not o.claimed]
            if uw: self.und(props, rule, "%s: no matching fill; unresolved write at %s" % (what, uw[0].e.site)); return None
            near = [a for a in ars if kmatch(a) and not a.item.claimed and (a.item.loops or a.item.kind == "call")]
            d = "%s is not written" % what
            site = None
            if near:
                a = near[0]; site = a.item.e.site
                d += "; nearest: %s" % self.area_text(a)
                for a in near: a.item.claimed = True
            self.bad(props, rule, d + "; expected base %s, step/count %s, length %s" % (self.s(base)[:200], [(self.s(x)[:80], self.s(y)[:80]) for x, y in dims], self.s(ln)[:80]), site)
            return None
        good = True
        for a in cand:
            a.item.claimed = True
            for o in getattr(a, "also", ()): o.claimed = True
            G = c.AND(v.G, a.item.top)
            probs = []
            for (s1, k1), (s2, k2) in zip(a.dims, dims):
                d = fa.differs(s1, s2, G)
                if d: probs.append("step: " + d.text())
                d = fa.differs(k1, k2, G)
                if d: probs.append("count: " + d.text())
            d = fa.differs(a.len, ln, G)
            if d: probs.append("length: " + d.text())
            if kind == "copy":
                d = fa.differs(a.val, val, G)
                if d: probs.append("source: " + d.text())
            else:
                pv = self.vprob(a, val, G)
                if pv: probs.append(pv)
            if probs:
                good = False
                res = all(fa.resolved(x) for x in [a.len, a.base] + [y for q in a.dims for y in q])
                if res: self.bad(props, rule, "%s: %s" % (what, "; ".join(probs)), a.item.e.site)
                else: self.und(props, rule, "%s: %s" % (what, "; ".join(probs)))
                continue
            # every iteration is reached
            if a.early:
                good = False
                site, x = a.early[0]
                plain = all(c.blist[b][0] in ("eq", "ult", "slt", "bit0", "argb") or v.differ(b) is not None for b in c.support(x))
                if plain: self.bad(props, rule, "%s: the rest is left as it was when %s" % (what, self.s(x)[:200]), site)
                else: self.und(props, rule, "%s: loop left early under %s" % (what, self.s(x)[:200]))
                continue
            # condition: always, except iterations already holding the value
            st = self.skip_ok(a, base, dims, ln, val, kind)
            if st[0] != "ok":
                good = False
                (self.bad(props, rule, "%s: %s" % (what, st[1]), a.item.e.site) if st[0] == "bad" else self.und(props, rule, "%s: %s" % (what, st[1])))
        if good: self.ok(props, rule, what)
        return cand
    def area_text(self, a):
        return "base %s, step/count %s, length %s, value %s at %s" % (self.s(a.base)[:200], [(self.s(x)[:80], self.s(y)[:80]) for x, y in a.dims], self.s(a.len)[:80], self.s(a.val)[:80], a.item.e.site)
    def vprob(self, a, val, G):
        fa, c = self.fa, self.c
        if a.kind == "memset":
            cv = c.cval(a.val.leaf) if a.val.b is None else None
            if cv is not None:
                rep = int.from_bytes(bytes([cv & 0xff]) * 8, "little")
                d = fa.differs(fa.K(rep), val, G)
                return "value: " + d.text() if d else None
            return "value: memset with %s" % self.s(a.val)
        w = a.item.e.width
        if w == 8:
            d = fa.differs(a.val, val, G)
            return "value: " + d.text() if d else None
        cv = c.cval(a.val.leaf) if a.val.b is None else None; ev = c.cval(val.leaf) if val.b is None else None
        if cv is not None and ev is not None and w in (1, 2, 4):
            rep = int.from_bytes(cv.to_bytes(w, "little") * (8 // w), "little")
            return None if rep == ev else "value: %#x" % cv
        return "value: stored %d bytes at a time" % w
    def skip_ok(self, a, base, dims, ln, val, kind):
        """the conditions under which the fill of an iteration is skipped"""
        c, fa, v, g = self.c, self.fa, self.v, self.fa.g
        conds = [(None, a.item.top)] + list(a.item.its)
        for l, x in conds:
            x0 = x
            # literals on content comparison
            for b in sorted(c.support(x)):
                k = c.blist[b]
                if k[0] == "brk":
                    dd = v.differ(b)
                    if dd is None: return ("und", "skip condition not understood: %s" % self.s(x)[:200])
                    db, ddims, dl, dv, extra = dd
                    # per-iteration region: base + sum s*k
                    eb = base; rem = list(dims)
                    it_base = self.iter_base(a, l)
                    if it_base is None: return ("und", "skip condition inside a reordered loop")
                    okb = fa.same(db, it_base[0], v.G) and len(ddims) == len(it_base[1])
                    if okb: okb = all(fa.same(p, r, v.G) and fa.same(q, t, v.G) for (p, q), (r, t) in zip(ddims, it_base[1]))
                    if not okb: return ("bad", "content is skipped based on comparing %s, not the area written" % self.s(db)[:200])
                    d = fa.differs(dl, ln, v.G)
                    if d: return ("bad", "content is skipped after comparing only part of it: %s" % d.text())
                    d = fa.differs(dv, val, v.G) if kind != "copy" else True
                    if d: return ("bad", "content is skipped when it equals %s instead of the value to write" % self.s(dv)[:100])
                    lo = c.restrict(x, b, False); hi = c.restrict(x, b, True)
                    if lo is not c.F: return ("und", "skip condition")
                    x = hi
                elif k[0] == "eq":
                    ca = [z for z in c.atoms_of(k[1]) if c.alist[z][0] == "call" and c.alist[z][1] in ("memcmp", "bcmp")]
                    if len(ca) == 1 and set(k[1].d) == {(ca[0],)}:
                        it = [i for i in v.items if i.kind == "call" and i.res is not None and i.res.b is None and c.single(i.res.leaf) == ca[0]]
                        if not it: return ("und", "comparison call not found")
                        p, q, n = it[0].args[:3]
                        ib = self.iter_base(a, l)
                        if ib is None or ib[1]: return ("und", "skip condition")
                        okp = (fa.same(p, ib[0], v.G) and fa.same(q, val, v.G)) or (fa.same(q, ib[0], v.G) and fa.same(p, val, v.G))
                        if kind != "copy" or not okp: return ("bad", "content is skipped based on comparing other memory (%s with %s)" % (self.s(p)[:150], self.s(q)[:150]))
                        d = fa.differs(n, ln, v.G)
                        if d: return ("bad", "content is skipped after comparing only part of it: %s" % d.text())
                        if c.restrict(x, b, True) is not c.F: return ("bad", "content is skipped when it differs")
                        x = c.restrict(x, b, False)
            d = fa.differs(x, c.T, v.G)
            if d is not None:
                kx = [b for b in c.support(x) if c.blist[b][0] not in ("eq", "ult", "slt", "bit0", "argb")]
                if kx: return ("und", "condition not understood: %s" % self.s(x)[:200])
                return ("bad", "not written when %s" % d.text("written", "expected"))
        return ("ok", "")
    def iter_base(self, a, l):
        """base address (and remaining dims inside) of the bytes written by one iteration of loop l"""
        c, fa, v, g = self.c, self.fa, self.v, self.fa.g
        loops = a.item.loops
        addr = a.item.addr if a.item.kind == "store" else a.item.args[0]
        i = loops.index(l) if l is not None else -1
        inner = loops[i + 1:]
        r = v.affine(addr, inner)
        if r is None: return None
        A, S = r
        base = c.leaf(A); dims = []
        ln = fa.K(a.item.e.width) if a.item.kind == "store" else None
        for m in inner:
            s = S.get(m)
            if s is None or not s.d: continue
            K = v.R(m.K)
            if v._neg(s): base = fa.add(base, fa.mul(c.leaf(s), fa.sub(K, fa.K(1)))); s = c.pneg(s)
            if ln is not None and c.leaf(s) is ln: continue
            dims.append((c.leaf(s), K))
        return base, dims
    # ---- closing
    def rest(self, props, rule, allow=()):
        """no other write to non-local memory; allow(item) -> True for tolerated ones"""
        n = 0
        for it in self.v.items:
            if it.claimed: continue
            if it.kind == "store":
                if self.v.is_local(it.addr): continue
            elif it.kind == "call":
                if it.name in HARMLESS or it.name in self.known_calls or it.name.startswith(("llvm.dbg", "llvm.lifetime")): continue
                if (it.name.startswith(("llvm.mem")) or it.name in ("memset", "bzero", "memcpy", "memmove")) and self.v.is_local(it.args[0]): continue
            else: continue
            if any(f(it) for f in allow): continue
            tgt = it.addr if it.kind == "store" else (it.args[0] if it.args else None)
            if it.kind == "call" and not (it.name.startswith("llvm.mem") or it.name in ("memset", "bzero", "memcpy", "memmove")):
                self.und(props, rule, "call to %s at %s" % (it.name, it.e.site)); n += 1; continue
            if not self.fa.resolved(tgt) or any(not self.fa.resolved(x) for l, x in it.its): self.und(props, rule, "unresolved write at %s" % it.e.site)
            else: self.bad(props, rule, "unexpected write to %s at %s" % (self.s(tgt)[:300], it.e.site), it.e.site)
            n += 1
        if not n: self.ok(props, rule, "no other write")
    def errno(self, it): return False
