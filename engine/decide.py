"""Comparing terms of the value graph.

Two gated terms are equal when their canonical forms coincide.  When they do not, the difference is
reported only if it survives a filter: some decision path on which the leaves differ must admit a
valuation of its base atoms (within the documented data-structure invariants) that satisfies the path
and separates the two leaves.  The filter can only withdraw a report (canonical forms are incomplete:
x % s and x & (s-1) are the same number); it is the randomised value-numbering test of Gulwani and
Necula applied to terms, nothing of the program is executed.
"""
import random
from vg import Poly, Node

class Stuck(Exception): pass

def tosigned(v, w): return v - (1 << w) if v >> (w - 1) else v

class Env:
    """one valuation of base atoms, consistent with the invariants of a valid pool/range"""
    def __init__(self, ctx, rnd, hints=None, cfg=None):
        self.c = ctx; self.r = rnd; self.v = {}; self.bv = {}; self.mem = {}; self.hints = hints or {}
        self.page = 4096
        so, n = rnd.choice((12, 12, 13, 16)), rnd.choice((1, 2, 3, 5))
        big = rnd.randrange(8)      # extents and sizes beyond 32 bits
        if big == 0: so, n = rnd.choice((31, 32, 33, 36)), rnd.choice((1, 2, 3, 300))
        elif big == 1: so, n = rnd.choice((12, 16)), rnd.choice(((1 << 20) + 1, (1 << 16) + 3, (1 << 19)))
        io = rnd.choice((3, 3, 4, 5, 8, so - 1, so))
        self.cfg = dict(stride=1 << so, item_order=io, item_len=1 << io, ncpu=n, policy=rnd.choice((0, 1)), robust=rnd.choice((0, 1)),
            poison_set=rnd.choice((0, 1)), poison=rnd.choice((0, 0x5555555555555555, rnd.getrandbits(64))), type=rnd.choice((0, 0, 1)), init_set=rnd.choice((0, 1)),
            max_nr_ranges=rnd.choice((0, 1, 2, 7)), nr_ranges=rnd.choice((0, 1, 2, 6, 7, 8)), name=rnd.choice((0, 0x5000 + 16 * rnd.randrange(999))))
        if cfg: self.cfg.update(cfg)
        self.poolptr = 0x7f0000000000 + 0x1000 * rnd.randrange(1 << 12) + 16 * rnd.randrange(100)
        self.tick = 0
    def fresh_ptr(self): return 0x100000000 + (self.r.getrandbits(30) << 4)
    def fresh_base(self): return 0x7e0000000000 + self.cfg["stride"] * (1 + self.r.getrandbits(12)) * 8
    def num(self, w):
        k = self.r.randrange(10)
        if k < 2: v = 0
        elif k < 3: v = 1
        elif k < 6: v = self.r.randrange(16)
        elif k < 7: v = (1 << self.r.randrange(w)) + self.r.choice((-1, 0, 1))
        elif k < 8: v = -1
        else: v = self.r.getrandbits(w)
        return v & ((1 << w) - 1)
    # ------------------------------------------------------------ atoms
    def atom(self, a, w):
        r = self.v.get(a)
        if r is None:
            r = self._atom(a, self.c.alist[a], w); self.v[a] = r
        return r & ((1 << w) - 1)
    def _atom(self, a, k, w):
        t = k[0]
        if t == "page": return self.page
        if t == "and": return self.poly(k[1]) & self.poly(k[2])
        if t == "xor": return self.poly(k[1]) ^ self.poly(k[2])
        if t == "or": return self.poly(k[1]) | self.poly(k[2])
        if t in ("lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            x, y = self.poly(k[1]), self.poly(k[2]); ww = k[1].w
            if t == "lshr": return x >> y if y < ww else self.num(ww)
            if t == "ashr": return (tosigned(x, ww) >> y) & ((1 << ww) - 1) if y < ww else self.num(ww)
            if y == 0: return self.num(ww)
            if t == "udiv": return x // y
            if t == "urem": return x % y
            sx, sy = tosigned(x, ww), tosigned(y, ww)
            q = abs(sx) // abs(sy); q = q if (sx < 0) == (sy < 0) else -q
            return (q if t == "sdiv" else sx - q * sy) & ((1 << ww) - 1)
        if t == "pow2":
            y = self.poly(k[1]); return 1 << y if y < w else self.num(w)
        if t == "ceildiv":
            x, y = self.poly(k[1]), self.poly(k[2])
            return -(-x // y) if y else 0
        if t == "sext": return tosigned(self.poly(k[2]), k[2].w) & ((1 << w) - 1)
        if t == "zext": return self.poly(k[2])
        if t == "trunc": return self.poly(k[2])
        if t == "k" or t == "kx": return self.r.randrange(6)
        if t == "load": return self._load(a, k, w)
        if t == "arg":
            h = self.hints.get(("arg", k[1]))
            if h is not None: return h(self)
            return self.fresh_ptr() if w == 64 and self.r.random() < 0.5 else self.num(w)
        if t == "global": return 0x400000 + 4096 * (a + 1)
        if t in ("alloca", "str", "meta"): return 0x7ffff0000000 + 65536 * (a + 1)
        if t == "fcall":
            xs = [self.poly(p) for p in k[2]]
            if k[1] == "clog2": x = xs[0]; return ((x - 1).bit_length() if x else -1) & ((1 << w) - 1)
            if k[1] == "fls": return xs[0].bit_length()
            if k[1].startswith("llvm.ctpop"): return bin(xs[0]).count("1")
            if k[1].startswith("llvm.ctlz"): return k[2][0].w - xs[0].bit_length()
            if k[1] == "__errno_location": return 0x7fff00000000
            h = self.hints.get(("fcallx", k[1]))
            if h is not None: return h(self)
        if t == "call":
            h = self.callhint(k)
            if h is not None: return h(self)
            nm = k[1]
            if nm == "mmap": return self.r.choice((-1 & ((1 << 64) - 1), self.fresh_base() - 2 * self.page, self.fresh_base() + self.page * self.r.randrange(16)))
            if nm in ("calloc", "malloc", "strdup"): return self.r.choice((0, self.fresh_ptr()))
            if w == 64: return self.r.choice((0, self.fresh_base() - self.hints.get("range_size", 80)))
            return self.r.choice((0, 0, 1, (1 << w) - 1, 3, 7)) & ((1 << w) - 1)
        h = self.hints.get((t,))
        if h is not None: return h(self, k, w)
        return self.num(w)
    def callhint(self, k): return self.hints.get(("call", k[1], k[2])) or self.hints.get(("call", k[1]))
    def _load(self, a, k, w):
        addr = self.poly(k[1]); ver = k[3]
        nm = self.c.names.get(a)
        h = self.hints.get(("field", nm[0], nm[2])) if nm else None
        key = (addr, w, ver, (nm[0], nm[2]) if h else None)      # typed fields of different structures never share memory
        if key in self.mem: return self.mem[key]
        if h is not None: v = h(self, addr, nm)
        else: v = self.num(w) if w < 64 else self.r.choice((self.fresh_ptr(), self.fresh_ptr(), 0, self.num(64)))
        v &= (1 << w) - 1
        self.mem[key] = v
        return v
    def poly(self, p):
        m = (1 << p.w) - 1; t = 0
        for mono, co in p.d.items():
            x = co
            for a in mono: x *= self.atom(a, p.w if self.c.alist[a][0] in ("k", "kx") else p.w)
            t += x
        return t & m
    def bool(self, b):
        k = self.c.blist[b]
        if k[0] == "eq": return self.poly(k[1]) == 0
        if k[0] == "ult": return self.poly(k[1]) < self.poly(k[2])
        if k[0] == "slt": return tosigned(self.poly(k[1]), k[1].w) < tosigned(self.poly(k[2]), k[2].w)
        if k[0] == "bit0": return bool(self.poly(k[1]) & 1)
        r = self.bv.get(b)
        if r is None: r = self.bv[b] = bool(self.r.getrandbits(1))
        return r
    def node(self, n):
        while n.b is not None: n = n.hi if self.bool(n.b) else n.lo
        return n.leaf if isinstance(n.leaf, bool) else self.poly(n.leaf)
    # ------------------------------------------------------------ steering towards a path
    def steer(self, lits):
        """try to satisfy the literals by solving equalities for one base atom; True when all hold"""
        c = self.c
        for b, v in lits.items():
            if c.blist[b][0] not in ("eq", "ult", "slt", "bit0"): self.bv[b] = v
        for b, v in lits.items():
            if not self.movable(b) and self.bool(b) != v: return False
        for rnd in range(6):
            bad = [(b, v) for b, v in lits.items() if self.bool(b) != v]
            if not bad: return True
            for b, v in bad:
                k = c.blist[b]
                if k[0] in ("ult", "slt"): self._nudge(k, v); continue
                if k[0] != "eq": continue
                p = k[1]
                cand = [(m[0], co) for m, co in p.d.items() if len(m) == 1 and co in (1, (1 << p.w) - 1) and (self._base(m[0]) or self._via(m[0]) is not None)]
                if not cand:
                    rs = [x for x in c.deep_atoms(p) if self._resample(x)]
                    if rs: self.redraw(self.r.choice(rs))
                    continue
                # a solution must not be one of a repeated atom
                a, co = self.r.choice(cand)
                cur = self.atom(a, p.w)
                if v:
                    rest = (self.poly(p) - co * cur) & ((1 << p.w) - 1)
                    new = (-rest if co == 1 else rest) & ((1 << p.w) - 1)
                else: new = self.r.choice((cur + 1, self.fresh_ptr(), self.num(p.w)))
                self.setatom(a if self._base(a) else self._via(a), new & ((1 << p.w) - 1))
        return all(self.bool(b) == v for b, v in lits.items())
    def movable(self, b):
        """some atom of the condition can be adjusted (otherwise its value is settled by the configuration)"""
        m = self.c.movable = getattr(self.c, "movable", {})
        key = (id(self.hints), b)
        if key not in m:
            k = self.c.blist[b]
            m[key] = k[0] not in ("eq", "ult", "slt", "bit0") or any(self._base(x) or self._resample(x) for x in self.c.deep_atoms(k))
        return m[key]
    def _nudge(self, k, v):
        cand = []
        for p in k[1:3]:
            for m, co in p.d.items():
                if len(m) == 1 and self._base(m[0]) and co in (1, (1 << p.w) - 1): cand.append((m[0], p.w))
        if not cand:
            rs = [x for p in k[1:3] for x in self.c.deep_atoms(p) if self._resample(x)]
            if rs: self.redraw(self.r.choice(rs))
            return
        a, w = self.r.choice(cand)
        x = self.poly(k[1]); y = self.poly(k[2]); cur = self.atom(a, w)
        self.setatom(a, self.r.choice((cur + y - x, cur + x - y, cur + y - x + 1, cur + x - y + 1, cur + y - x - 1, cur + x - y - 1, self.num(w), 0)) & ((1 << w) - 1))
    FIXED = {"attr.stride", "item_len", "item_order", "attr.max_nr_cpus", "base", "init", "pool", "mmap_addr", "header", "mmap_len", "alloc_bitmap", "next_unused",
        "attr.robust_set", "attr.populate_policy", "attr.poison_set", "attr.poison", "attr.type", "free_list_head", "next"}
    def _base(self, a):
        k = self.c.alist[a]
        if k[0] == "load":
            nm = self.c.names.get(a)
            if nm and nm[0] == "attr_in" and nm[2].endswith(("_set", "type")): return False
            return not (nm and ("field", nm[0], nm[2]) in self.hints and (nm[2] in self.FIXED or "attr." + (nm[2] or "") in self.FIXED))
        if k[0] == "arg": return ("fixarg", k[1]) not in self.hints
        if k[0] == "call": return self.callhint(k) is None
        if k[0] == "mu": return ("mu",) not in self.hints
        return k[0] in ("kx", "k", "undef", "xv")
    def _via(self, a):
        """base atom behind a width change or a low-bit mask"""
        k = self.c.alist[a]
        if k[0] in ("zext", "sext", "trunc"): x = self.c.single(k[2])
        elif k[0] == "and":
            x = self.c.single(k[1]) if k[2].d.keys() <= {()} else self.c.single(k[2]) if k[1].d.keys() <= {()} else None
        else: return None
        if x is None: return None
        return x if self._base(x) else self._via(x)
    def _resample(self, a):
        """atoms whose value is drawn from a set of valid ones and may be drawn again"""
        k = self.c.alist[a]
        if k[0] == "call": return self.callhint(k) is not None
        if k[0] == "mu": return ("mu",) in self.hints
        if k[0] == "load":
            nm = self.c.names.get(a)
            if nm and nm[0] == "attr_in" and ("field", nm[0], nm[2]) in self.hints: return True
            return bool(nm and nm[2] in ("free_list_head", "next", "next_unused") and ("field", nm[0], nm[2]) in self.hints)
        return False
    def redraw(self, a):
        k = self.c.alist[a]
        if k[0] == "call": v = self.callhint(k)(self)
        elif k[0] == "mu": v = self.hints[("mu",)](self, k, 64)
        else:
            nm = self.c.names.get(a)
            v = self.hints[("field", nm[0], nm[2])](self, self.poly(k[1]), nm)
        self.setatom(a, v)
    def setatom(self, a, v):
        self.v = {x: y for x, y in self.v.items() if self.c.alist[x][0] not in ("and", "xor", "or", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "pow2", "ceildiv", "sext", "zext", "trunc", "fcall", "load") and not (x != a and self.c.alist[x][0] == "call" and getattr(self.callhint(self.c.alist[x]), "dep", False))}
        k = self.c.alist[a]
        if k[0] == "load":
            nm = self.c.names.get(a)
            w = k[2]; self.mem[(self.poly(k[1]), w, k[3], (nm[0], nm[2]) if nm and ("field", nm[0], nm[2]) in self.hints else None)] = v
        else: self.v[a] = v

class Diff:
    def __init__(self, lits, a, b, ctx, env=None): self.lits, self.a, self.b, self.c, self.env = lits, a, b, ctx, env
    def text(self, la="code", lb="expected"):
        c = self.c
        cond = " & ".join(("" if v else "!") + c.s_b(b) for b, v in self.lits.items()) or "always"
        f = lambda x: str(x) if isinstance(x, bool) else c.s_poly(x)
        return "%s: %s; %s: %s; when %s" % (la, f(self.a), lb, f(self.b), cond[:700])

class Decider:
    def __init__(self, ctx, seed=1, hints=None, tries=400, cfg=None):
        self.c = ctx; self.hints = hints or {}; self.tries = tries; self.seed = seed; self.cfg = cfg
        self.compared = 0; self.byform = 0; self.filtered = 0
    def diff(self, A, B, G=None, maxpaths=3000):
        """None when equal under G (or no separating valuation found), else Diff"""
        c = self.c
        G = c.T if G is None else G
        self.compared += 1
        if A is B or G is c.F: self.byform += 1; return None
        Z = c.leaf(("z",))
        pairs = {}
        def pr(g, a, b):
            if g is False: return Z
            if a is b: return Z
            k = ("pair", id(a) if isinstance(a, Poly) else a, id(b) if isinstance(b, Poly) else b)
            pairs[k] = (a, b)
            return c.leaf(k)
        N = c.apply(("pair",), pr, G, A, B)
        if N is Z: self.byform += 1; return None
        # leaves memoised across calls: recover pairs from terms
        paths = []
        def go(x, lits):
            if len(paths) > maxpaths: return
            if x.b is None:
                if x is not Z: paths.append((dict(lits), x.leaf))
                return
            lits[x.b] = True; go(x.hi, lits); lits[x.b] = False; go(x.lo, lits); del lits[x.b]
        go(N, {})
        rnd = random.Random(self.seed)
        byid = None
        for lits, k in paths:
            if k not in pairs:
                # memo hit: rebuild the pair by walking A and B along the path
                pairs[k] = (self._walk(A, lits), self._walk(B, lits))
            a, b = pairs[k]
            if isinstance(a, Poly) and isinstance(b, Poly):
                dp = c.padd(a, b, -1); dn = c.pneg(dp)
                if any(v and c.blist[x][0] == "eq" and c.blist[x][1] in (dp, dn) for x, v in lits.items()): continue
                if any(c.alist[z][0] == "undef" for z in c.atoms_of(a) | c.atoms_of(b)): continue
            for t in range(max(6, self.tries // max(1, len(paths) // 8 + 1))):
                e = Env(c, rnd, self.hints, self.cfg)
                try:
                    if not e.steer(lits): continue
                    if isinstance(a, bool): va, vb = a, b
                    else: va, vb = e.poly(a), e.poly(b)
                except RecursionError: continue
                if va != vb: return Diff(lits, a, b, c, e)
        self.filtered += 1
        return None
    def _walk(self, n, lits):
        while n.b is not None:
            n = n.hi if lits.get(n.b, False) else n.lo
        return n.leaf
    def feasible(self, G, tries=None):
        """a path of the condition G that some valuation satisfies, or None"""
        d = self.diff(G, self.c.F)
        return d
    def implies(self, G, H):
        """None if G => H, else Diff (a feasible path of G & !H)"""
        c = self.c
        return self.diff(c.AND(G, c.NOT(H)), c.F)
