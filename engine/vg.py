"""Gated value graph over normalised SSA.

Values are decision diagrams whose inner nodes are canonical predicates and whose leaves are
polynomials (mod 2^w) over value atoms.  Conditions are the same diagrams with boolean leaves.
Blocks get reaching conditions (relative to the innermost loop iteration, modulo paths that end in a
no-return call); loops get affine induction variables and closed-form iteration counts.

Nothing is executed and no solver is consulted: this is value numbering plus dataflow on the CFG.
"""
import sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ hash-consed atoms and polynomials
class Ctx:
    def __init__(self):
        self.atoms = {}; self.alist = []          # value atoms
        self.batoms = {}; self.blist = []         # boolean atoms
        self.polys = {}
        self.nodes = {}; self.nlist = []
        self.T = self.leaf(True); self.F = self.leaf(False)
        self.memo = {}
        self.names = {}                           # load atom -> (struct, offset, field path)
        self.bool01 = set()                       # value atoms known to be 0 or 1
        self.nonneg_atoms = set()                 # value atoms known to be >= 0 as signed
        self.limit = 400000                       # bound on the number of decision-diagram nodes
        self.canon_b = None                       # hook: canonicalise boolean atoms
    # value atoms
    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.alist); self.atoms[key] = i; self.alist.append(key)
        return i
    # polynomials: ("p", w, frozenset(((mono...), coef)))
    def poly(self, w, d):
        m = 1 << w
        items = []
        for k, c in d.items():
            c %= m
            if c: items.append((k, c))
        key = (w, frozenset(items))
        p = self.polys.get(key)
        if p is None:
            p = Poly(w, dict(items), len(self.polys)); self.polys[key] = p
        return p
    def const(self, w, c): return self.poly(w, {(): c})
    def var(self, w, key): return self.poly(w, {(self.atom(key),): 1})
    # nodes
    def leaf(self, v):
        k = ("L", id(v) if isinstance(v, Poly) else v)
        n = self.nodes.get(k)
        if n is None:
            n = Node(None, None, None, v, len(self.nlist)); self.nodes[k] = n; self.nlist.append(n)
        return n
    def node(self, b, hi, lo):
        if hi is lo: return hi
        k = (b, hi.id, lo.id)
        n = self.nodes.get(k)
        if n is None:
            n = Node(b, hi, lo, None, len(self.nlist)); self.nodes[k] = n; self.nlist.append(n)
            if len(self.nlist) > self.limit: raise TooBig()
        return n
    def batom(self, key):
        i = self.batoms.get(key)
        if i is None:
            i = len(self.blist); self.batoms[key] = i; self.blist.append(key)
        return i
    def lit(self, key, pos=True):
        b = self.batom(key)
        return self.node(b, self.T, self.F) if pos else self.node(b, self.F, self.T)
    # apply
    def apply(self, op, f, *ns):
        key = (op,) + tuple(n.id for n in ns)
        r = self.memo.get(key)
        if r is not None: return r
        top = min((n.b for n in ns if n.b is not None), default=None)
        if top is None:
            r = f(*[n.leaf for n in ns])
            if not isinstance(r, Node): r = self.leaf(r)
        else:
            hi = self.apply(op, f, *[n.hi if n.b == top else n for n in ns])
            lo = self.apply(op, f, *[n.lo if n.b == top else n for n in ns])
            r = self.mk(top, hi, lo)
        self.memo[key] = r
        return r
    def mk(self, b, hi, lo):
        """node() tolerating hi/lo whose top variable precedes b"""
        if hi is lo: return hi
        if (hi.b is not None and hi.b <= b) or (lo.b is not None and lo.b <= b):
            return self.ite(self.node(b, self.T, self.F), hi, lo)
        return self.node(b, hi, lo)
    def ite(self, c, a, b):
        if c is self.T: return a
        if c is self.F: return b
        if a is b: return a
        key = ("ite", c.id, a.id, b.id)
        r = self.memo.get(key)
        if r is not None: return r
        top = min(n.b for n in (c, a, b) if n.b is not None)
        g = lambda n, h: (n.hi if h else n.lo) if n.b == top else n
        hi = self.ite(g(c, 1), g(a, 1), g(b, 1)); lo = self.ite(g(c, 0), g(a, 0), g(b, 0))
        r = self.node(top, hi, lo)
        self.memo[key] = r
        return r
    def NOT(self, a): return self.ite(a, self.F, self.T)
    def AND(self, *xs):
        r = self.T
        for x in xs: r = self.ite(r, x, self.F)
        return r
    def OR(self, *xs):
        r = self.F
        for x in xs: r = self.ite(r, self.T, x)
        return r
    def implies(self, a, b): return self.AND(a, self.NOT(b))
    def restrict(self, n, b, v):
        key = ("re", n.id, b, v)
        r = self.memo.get(key)
        if r is not None: return r
        if n.b is None or n.b > b: r = n
        elif n.b == b: r = n.hi if v else n.lo
        else: r = self.node(n.b, self.restrict(n.hi, b, v), self.restrict(n.lo, b, v))
        self.memo[key] = r
        return r
    def support(self, n, acc=None, seen=None):
        acc = set() if acc is None else acc; seen = set() if seen is None else seen
        if n.id in seen or n.b is None: return acc
        seen.add(n.id); acc.add(n.b); self.support(n.hi, acc, seen); self.support(n.lo, acc, seen); return acc
    def leaves(self, n, seen=None, acc=None):
        seen = set() if seen is None else seen; acc = [] if acc is None else acc
        if n.id in seen: return acc
        seen.add(n.id)
        if n.b is None: acc.append(n.leaf)
        else: self.leaves(n.hi, seen, acc); self.leaves(n.lo, seen, acc)
        return acc
    def implied_literals(self, n):
        """literals true in every satisfying assignment of the condition n"""
        out = []
        for b in self.support(n):
            if self.restrict(n, b, False) is self.F: out.append((b, True))
            elif self.restrict(n, b, True) is self.F: out.append((b, False))
        return out
    def paths(self, n, limit=4096):
        """list of (literal dict, leaf)"""
        out = []
        def go(x, lits):
            if len(out) > limit: return
            if x.b is None: out.append((dict(lits), x.leaf)); return
            lits[x.b] = True; go(x.hi, lits); lits[x.b] = False; go(x.lo, lits); del lits[x.b]
        go(n, {})
        return out
    # ---------------------------------------------------------------- printing
    def s_atom(self, i, d=0):
        k = self.alist[i]
        if d > 6: return "..."
        kind = k[0]
        if kind == "arg": return "arg%d" % k[1] if k[2] is None else str(k[2])
        if kind == "load":
            f = self.names.get(i)
            if f and f[2]: return "%s(%s)" % (f[2], self.s_poly(k[1], d + 1))
            return "load%d(%s)%s" % (k[2], self.s_poly(k[1], d + 1), "" if k[3] is None else "#" + str(k[3]))
        if kind == "call": return "%s#%s" % (k[1], k[2])
        if kind == "fcall": return "%s(%s)" % (k[1], ",".join(self.s_poly(x, d + 1) for x in k[2]))
        if kind == "k": return "k%s" % (k[1],)
        if kind == "kx": return "kexit%s" % (k[1],)
        if kind == "mu": return "mu(%s)" % (k[2],)
        if kind == "global": return "@" + k[1]
        return "%s(%s)" % (kind, ",".join(self.s_poly(x, d + 1) if isinstance(x, Poly) else self.s(x) if isinstance(x, Node) else str(x) for x in k[1:]))
    def s_poly(self, p, d=0):
        parts = []
        half = 1 << (p.w - 1) if p.w > 1 else 2
        for mono, c in sorted(p.d.items(), key=lambda x: (len(x[0]) == 0, x[0])):
            if c >= half: c -= 1 << p.w
            m = "*".join(self.s_atom(a, d) for a in mono)
            if not mono: parts.append(str(c) if abs(c) < 65536 else hex(c))
            elif c == 1: parts.append(m)
            elif c == -1: parts.append("-" + m)
            else: parts.append("%d*%s" % (c, m))
        return " + ".join(parts).replace("+ -", "- ") if parts else "0"
    def s_b(self, b):
        k = self.blist[b]
        if k[0] == "eq": return "[%s == 0]" % self.s_poly(k[1])
        if k[0] in ("ult", "slt"): return "[%s %s %s]" % (self.s_poly(k[1]), "<u" if k[0] == "ult" else "<s", self.s_poly(k[2]))
        return "[" + " ".join(self.s_poly(x) if isinstance(x, Poly) else "{" + self.s(x) + "}" if isinstance(x, Node) else str(x) for x in k) + "]"
    def s(self, n, depth=0):
        if depth == 0: self._budget = 1500
        self._budget -= 1
        if self._budget < 0: return "..."
        if n.b is None: return self.s_poly(n.leaf) if isinstance(n.leaf, Poly) else str(n.leaf)
        if n is self.T: return "T"
        if depth > 12: return "..."
        if n.hi is self.T and n.lo is self.F: return self.s_b(n.b)
        if n.hi is self.F and n.lo is self.T: return "!" + self.s_b(n.b)
        if n.lo is self.F: return "%s & %s" % (self.s_b(n.b), self.s(n.hi, depth + 1))
        if n.hi is self.F: return "!%s & %s" % (self.s_b(n.b), self.s(n.lo, depth + 1))
        if n.hi is self.T: return "(%s | %s)" % (self.s_b(n.b), self.s(n.lo, depth + 1))
        if n.lo is self.T: return "(!%s | %s)" % (self.s_b(n.b), self.s(n.hi, depth + 1))
        return "(%s ? %s : %s)" % (self.s_b(n.b), self.s(n.hi, depth + 1), self.s(n.lo, depth + 1))
    # ---------------------------------------------------------------- polynomial operations
    def padd(self, a, b, s=1):
        d = dict(a.d)
        for k, c in b.d.items(): d[k] = d.get(k, 0) + s * c
        return self.poly(a.w, d)
    def pmul(self, a, b):
        d = {}
        for k1, c1 in a.d.items():
            for k2, c2 in b.d.items():
                k = tuple(sorted(k1 + k2)); d[k] = d.get(k, 0) + c1 * c2
        return self.poly(a.w, d)
    def pneg(self, a): return self.poly(a.w, {k: -c for k, c in a.d.items()})
    def pscale(self, a, c): return self.poly(a.w, {k: v * c for k, v in a.d.items()})
    def cval(self, p):
        """constant value or None (unsigned)"""
        if not p.d: return 0
        if len(p.d) == 1 and () in p.d: return p.d[()]
        return None
    def scval(self, p):
        c = self.cval(p)
        if c is None: return None
        return c - (1 << p.w) if c >> (p.w - 1) else c
    def single(self, p):
        """atom id if p is exactly one atom"""
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1: return m[0]
        return None
    def atoms_of(self, p):
        return {a for m in p.d for a in m}
    def deep_atoms(self, x, acc=None):
        """all value atoms, recursively"""
        acc = set() if acc is None else acc
        if isinstance(x, Poly):
            for a in self.atoms_of(x):
                if a not in acc:
                    acc.add(a)
                    for y in self.alist[a]:
                        if isinstance(y, (Poly, Node, tuple)): self.deep_atoms(y, acc)
        elif isinstance(x, Node):
            for b in self.support(x):
                for y in self.blist[b]:
                    if isinstance(y, (Poly, Node, tuple)): self.deep_atoms(y, acc)
            for l in self.leaves(x):
                if isinstance(l, Poly): self.deep_atoms(l, acc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Poly, Node, tuple)): self.deep_atoms(y, acc)
        return acc
    # ---------------------------------------------------------------- predicates
    def nonneg(self, p):
        """syntactic knowledge that a 64-bit poly is small non-negative: used only for constants"""
        c = self.scval(p)
        return c is not None and c >= 0
    def beq(self, a, b):
        p = self.padd(a, b, -1)
        c = self.cval(p)
        if c is not None: return self.T if c == 0 else self.F
        # factor of the form pow2(x) (never zero) etc. is not needed here
        if len(p.d) == 1 and p.w in (8, 16, 32, 64):
            (m, c), = p.d.items()
            if len(m) == 1 and m and c % 2 == 1: p = self.poly(p.w, {m: 1})
        q = self.pneg(p)
        if min(q.d.items(), key=lambda x: (x[0]))[1] < min(p.d.items(), key=lambda x: (x[0]))[1]: p = q
        # bool-valued atom minus 1
        a1 = None
        for mono in p.d:
            if len(mono) == 1: a1 = mono[0]
        if a1 is not None and a1 in self.bool01 and set(p.d) <= {(a1,), ()}:
            ca = p.d.get((a1,)); c0 = p.d.get((), 0); m = 1 << p.w
            if c0 == 0: return self.lit(("eq", self.poly(p.w, {(a1,): 1})))
            if (ca + c0) % m == 0: return self.lit(("eq", self.poly(p.w, {(a1,): 1})), False)
            return self.F
        # extension of a narrower value compared with a constant
        s = None
        for mono in p.d:
            if len(mono) == 1 and self.alist[mono[0]][0] in ("sext", "zext"): s = mono[0]
        if s is not None and set(p.d) <= {(s,), ()} and p.d[(s,)] in (1, (1 << p.w) - 1):
            inner = self.alist[s][2]; cc_ = p.d.get((), 0)
            val = (-cc_ if p.d[(s,)] == 1 else cc_) % (1 << p.w)
            iw = inner.w
            if self.alist[s][0] == "zext":
                if val >> iw: return self.F
                return self.beq(inner, self.const(iw, val))
            sv = val - (1 << p.w) if val >> (p.w - 1) else val
            if not (-(1 << (iw - 1)) <= sv < (1 << (iw - 1))): return self.F
            return self.beq(inner, self.const(iw, sv))
        return self.lit(("eq", p))
    def bult(self, a, b):
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None: return self.T if ca < cb else self.F
        if a is b: return self.F
        if cb == 0: return self.F
        if cb == 1: return self.beq(a, self.const(a.w, 0))
        if ca is not None:
            if ca == (1 << a.w) - 1: return self.F
            return self.NOT(self.bult(b, self.const(a.w, ca + 1)))
        if len(a.d) == 1:
            (m, co), = a.d.items()
            if len(m) == 1:
                k = self.alist[m[0]]
                if k[0] == "ceildiv" and k[1] is b and self.cval(k[2]) == co: return self.F
        r = self._ext_cmp("ult", a, b)
        if r is not None: return r
        return self.lit(("ult", a, b))
    def bslt(self, a, b):
        ca, cb = self.scval(a), self.scval(b)
        if ca is not None and cb is not None: return self.T if ca < cb else self.F
        if a is b: return self.F
        if ca is not None:
            if ca == (1 << (a.w - 1)) - 1: return self.F
            return self.NOT(self.bslt(b, self.const(a.w, ca + 1)))
        if cb == 0:
            s = self.single(a)
            if s is not None:
                if s in self.nonneg_atoms: return self.F
                k = self.alist[s]
                if k[0] == "fcall" and k[1] == "clog2": return self.beq(k[2][0], self.const(k[2][0].w, 0))
                if k[0] == "zext": return self.F
        r = self._ext_cmp("slt", a, b)
        if r is not None: return r
        # move constants of the left operand to the right for "x + c <s y" is unsound in general: keep
        return self.lit(("slt", a, b))
    def _ext_cmp(self, pred, a, b):
        """compare of two extensions of the same width narrows"""
        ka = self.single(a); kb = self.single(b)
        ea = self.alist[ka] if ka is not None else None; eb = self.alist[kb] if kb is not None else None
        if ea and ea[0] == "sext":
            if eb and eb[0] == "sext" and ea[2].w == eb[2].w and pred == "slt": return self.bslt(ea[2], eb[2])
            cb = self.scval(b)
            if cb is not None and pred == "slt" and -(1 << (ea[2].w - 1)) <= cb < (1 << (ea[2].w - 1)): return self.bslt(ea[2], self.const(ea[2].w, cb))
        if ea and ea[0] == "zext":
            if eb and eb[0] == "zext" and ea[2].w == eb[2].w: return self.bult(ea[2], eb[2])
            cb = self.cval(b)
            if cb is not None and cb < (1 << ea[2].w): return self.bult(ea[2], self.const(ea[2].w, cb))
        return None

class TooBig(Exception): pass

class Poly:
    __slots__ = ("w", "d", "id")
    def __init__(self, w, d, i): self.w, self.d, self.id = w, d, i
class Node:
    __slots__ = ("b", "hi", "lo", "leaf", "id")
    def __init__(self, b, hi, lo, leaf, i): self.b, self.hi, self.lo, self.leaf, self.id = b, hi, lo, leaf, i

# ------------------------------------------------------------------ CFG utilities
class Loop:
    def __init__(self, header): self.header = header; self.blocks = set(); self.parent = None; self.children = []; self.latches = []; self.id = header; self.exits = []; self.K = None; self.counter = None; self.order = 0
    def depth(self): return 0 if self.parent is None else 1 + self.parent.depth()

class CFG:
    def __init__(self, f):
        self.f = f; self.entry = f.blocks[0].name
        self.succ = {b.name: list(b.succs) for b in f.blocks}; self.pred = {b.name: list(b.preds) for b in f.blocks}
        # reverse post order
        seen = set(); order = []
        st = [(self.entry, iter(self.succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(self.succ[s]))); break
            else: order.append(b); st.pop()
        self.rpo = order[::-1]; self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [p for p in ps if p in seen] for b, ps in self.pred.items() if b in seen}
        self._dom(); self._loops(); self._doom()
    def _dom(self):
        idom = {self.entry: self.entry}; ch = True
        def inter(a, b):
            while a != b:
                while self.num[a] > self.num[b]: a = idom[a]
                while self.num[b] > self.num[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = None
                for p in self.pred[b]:
                    if p in idom: n = p if n is None else inter(p, n)
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
    def dom(self, a, b):
        while True:
            if a == b: return True
            if b == self.entry: return False
            b = self.idom[b]
    def _loops(self):
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if not self.dom(s, b): self.irreducible = True; continue
                    l = self.loops.setdefault(s, Loop(s)); l.latches.append(b)
                    st = [b]; l.blocks.add(s)
                    while st:
                        x = st.pop()
                        if x in l.blocks: continue
                        l.blocks.add(x); st.extend(self.pred[x])
        ls = sorted(self.loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and m is not l: l.parent = m; m.children.append(l); break
        for i, l in enumerate(sorted(self.loops.values(), key=lambda l: self.num[l.header])): l.order = i
        self.inner = {}
        for b in self.rpo:
            c = [l for l in ls if b in l.blocks]
            self.inner[b] = c[0] if c else None
    def _doom(self):
        ok = set()
        st = [b.name for b in self.f.blocks if b.name in self.num and b.insts and b.insts[-1].op == "ret"]
        while st:
            x = st.pop()
            if x in ok: continue
            ok.add(x); st.extend(self.pred[x])
        self.doomed = set(self.rpo) - ok
    def reachable(self, a, avoid=()):
        """blocks reachable from a (excluding a unless through a cycle)"""
        seen = set(); st = list(self.succ[a])
        while st:
            x = st.pop()
            if x in seen or x in avoid: continue
            seen.add(x); st.extend(self.succ[x])
        return seen

# ------------------------------------------------------------------ effects
class Effect:
    """kind: store | call | ret | abort ; addr/value/args are Nodes; guard is relative to innermost loop iteration"""
    __slots__ = ("kind", "inst", "block", "loops", "addr", "val", "args", "name", "guard", "tag", "width", "res", "order", "site", "doomed", "fn")
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))

PURE_CALLS = {"sysconf", "__errno_location", "llvm.returnaddress", "getpagesize", "llvm.ctpop.i64", "llvm.ctpop.i32", "llvm.umin.i64", "llvm.umax.i64", "llvm.smax.i32", "llvm.smin.i32",
    "llvm.umax.i32", "llvm.umin.i32", "llvm.smax.i64", "llvm.smin.i64", "llvm.thread.pointer", "llvm.ctlz.i64", "llvm.ctlz.i32", "llvm.abs.i32", "llvm.abs.i64", "llvm.threadlocal.address.p0", "llvm.fshl.i64", "llvm.bswap.i32",
    "llvm.usub.sat.i64", "llvm.uadd.sat.i64"}
NOEFFECT = {"llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.donothing"}

class VG:
    def __init__(self, mod, fname, ctx=None, immutable=None, structs=None, argnames=None, fold_fields=None, roaddr=None):
        self.roaddr = roaddr
        self.mod = mod; self.f = mod.funcs[fname]; self.c = ctx or Ctx(); self.cfg = CFG(self.f)
        self.immutable = immutable or (lambda tag: False)
        self.structs = structs
        self.defs = {}
        for b in self.f.blocks:
            for i in b.insts:
                if i.res is not None: self.defs[i.res] = i
        self.pidx = {n: i for i, (n, t) in enumerate(self.f.params)}
        self.argnames = argnames or {}
        self.tmemo = {}; self.cmemo = {}; self.rcmemo = {}; self.inprog = set()
        self.iv = {}
        self.callno = {}
        n = {}
        for b in self.cfg.rpo:
            for i in self.f.bmap[b].insts:
                if i.op in ("call", "callbr"):
                    nm = self.callee(i); n[nm] = n.get(nm, 0) + 1; self.callno[id(i)] = n[nm]
        self._fstores = None; self.cyclic = False
        self._detect_iv()
        self._solve_loops()
        for b in self.cfg.rpo:
            for i in self.f.bmap[b].insts:
                if i.res is not None: self.val(self._resval(i))
    # ---------------------------------------------------------------- helpers
    def callee(self, i):
        e = i.extra
        return e[1] if e[0] == "fn" else ("asm" if e[0] == "asm" else "<indirect>")
    def width(self, ty):
        return ty.bits if ty.kind == "int" else 64 if ty.kind == "ptr" else 64
    def k_atom(self, loop): return self.c.atom(("k", loop.id))
    def field(self, tag):
        """(struct, byte offset, field path) of a TBAA tag"""
        if tag is None: return None
        s, off, acc = tag
        nm = self.field_name(s, off) if self.structs else None
        return (s, off, nm)
    def field_name(self, s, off):
        st = self.structs.get(s)
        if not st: return None
        best = None
        for m, (o, sz, ty) in st["members"].items():
            if o <= off < o + max(sz, 1):
                if best is None or o >= best[0]: best = (o, m, ty)
        if best is None: return None
        o, m, ty = best
        tn = self.mod.di_type_name(ty)
        if tn.startswith("struct ") and not tn.endswith("*"):
            sub = self.field_name(tn[7:], off - o)
            if sub: return m + "." + sub
        return m
    # ---------------------------------------------------------------- induction variables
    def _detect_iv(self):
        cfg = self.cfg
        for l in cfg.loops.values():
            h = self.f.bmap[l.header]
            for i in h.insts:
                if i.op != "phi": break
                ins = [(v, p) for v, p in i.extra if p in l.blocks]
                outs = [(v, p) for v, p in i.extra if p not in l.blocks]
                steps = []
                ok = bool(ins)
                for v, p in ins:
                    s = self._step(v, i, l, 0)
                    if s is None: ok = False; break
                    steps.append(s)
                if ok and all(s == steps[0] for s in steps):
                    self.iv[i.res] = (l, i, steps[0], outs)
    def _invariant(self, v, l):
        if v.kind != "local": return True
        d = self.defs.get(v.name)
        if d is None: return True
        if d.block.name not in l.blocks: return True
        # a load of an immutable field from an invariant address is invariant
        if d.op == "load" and self.immutable(self.mod.tbaa_tag(d.tbaa)): return self._invariant(d.args[0], l)
        if d.op in ("getelementptr", "add", "sub", "mul", "shl", "zext", "sext", "ptrtoint", "and", "lshr", "trunc", "inttoptr"): return all(self._invariant(a, l) for a in d.args)
        return False
    def _step(self, v, phi, l, depth):
        """returns list of (sign, Val or int, scale) such that v = phi + sum, or None"""
        if depth > 8 or v.kind != "local": return None
        if v.name == phi.res: return ()
        d = self.defs.get(v.name)
        if d is None or d.block.name not in l.blocks: return None
        if d.op == "add":
            for a, b in ((0, 1), (1, 0)):
                if self._invariant(d.args[b], l):
                    s = self._step(d.args[a], phi, l, depth + 1)
                    if s is not None: return s + ((1, self._sv(d.args[b]), 1),)
        elif d.op == "sub" and self._invariant(d.args[1], l):
            s = self._step(d.args[0], phi, l, depth + 1)
            if s is not None: return s + ((-1, self._sv(d.args[1]), 1),)
        elif d.op == "getelementptr" and len(d.args) == 2 and self._invariant(d.args[1], l):
            s = self._step(d.args[0], phi, l, depth + 1)
            if s is not None: return s + ((1, self._sv(d.args[1]), self.mod.sizeof(d.extra)),)
        elif d.op in ("freeze", "inttoptr", "ptrtoint", "bitcast"): return self._step(d.args[0], phi, l, depth + 1)
        elif d.op == "phi" and d.res != phi.res:
            ss = [self._step(x, phi, l, depth + 1) for x, p in d.extra]
            if ss and ss[0] is not None and all(s == ss[0] for s in ss): return ss[0]
        return None
    def _sv(self, v): return ("i", v.val) if v.kind == "int" else ("v", v.name)
    # ---------------------------------------------------------------- terms
    def val(self, v):
        c = self.c
        if v.kind == "int": return c.leaf(c.const(self.width(v.ty), v.val)) if not (v.ty.kind == "int" and v.ty.bits == 1) else (c.T if v.val & 1 else c.F)
        if v.kind in ("null", "zero"): return c.leaf(c.const(self.width(v.ty), 0))
        if v.kind == "undef": return c.leaf(c.var(self.width(v.ty), ("undef",))) if not (v.ty.kind == "int" and v.ty.bits == 1) else c.lit(("undef",))
        if v.kind == "global": return c.leaf(c.var(64, ("global", v.name)))
        if v.kind == "str": return c.leaf(c.var(64, ("str", v.val)))
        if v.kind == "cexpr": return self._cexpr(v)
        if v.kind == "meta": return c.leaf(c.var(64, ("meta", v.name)))
        if v.kind != "local": return c.leaf(c.var(64, ("other", v.kind, str(v.val))))
        r = self.tmemo.get(v.name)
        if r is not None: return r
        if v.name in self.pidx:
            i = self.pidx[v.name]; ty = self.f.params[i][1]
            if ty.kind == "int" and ty.bits == 1: r = c.lit(("argb", i))
            else: r = c.leaf(c.var(self.width(ty), ("arg", i, self.argnames.get(i))))
        else:
            d = self.defs[v.name]
            if v.name in self.inprog:
                if d.ty.kind == "int" and d.ty.bits == 1: return c.lit(("mub", self.f.name, v.name))
                self.cyclic = True
                return c.leaf(c.var(self.width(d.ty), ("mu", self.f.name, v.name)))
            self.inprog.add(v.name)
            try: r = self._inst(d)
            finally: self.inprog.discard(v.name)
        self.tmemo[v.name] = r
        return r
    def _cexpr(self, v):
        c = self.c
        if v.name == "getelementptr": return self._gep(v.val[0], v.args)
        if v.name in ("ptrtoint", "inttoptr", "bitcast"): return self.val(v.args[0])
        return c.leaf(c.var(self.width(v.ty), ("cexpr", repr(v.name), repr(v.args))))
    def lift(self, op, f, *ns): return self.c.apply((op,), f, *ns)
    def add(self, a, b): return self.c.apply("add", self.c.padd, a, b)
    def sub(self, a, b): return self.c.apply("sub", lambda x, y: self.c.padd(x, y, -1), a, b)
    def mul(self, a, b): return self.c.apply("mul", self.c.pmul, a, b)
    def k(self, v, w=64): return self.c.leaf(self.c.const(w, v))
    def _gep(self, sty, args):
        c = self.c
        r = self.val(args[0])
        t = sty
        idx = self.sx64(args[1])
        r = self.add(r, self.mul(idx, self.k(self.mod.sizeof(t))))
        for a in args[2:]:
            t = self.mod.resolve(t)
            if t.kind == "struct":
                offs, size, al = self.mod.layout(t)
                r = self.add(r, self.k(offs[a.val])); t = t.elems[a.val]
            else:
                t = t.elems[0]; r = self.add(r, self.mul(self.sx64(a), self.k(self.mod.sizeof(t))))
        return r
    def sx64(self, v):
        w = self.width(v.ty)
        if w == 64: return self.val(v)
        return self.ext(v, 64, True)
    def ext(self, v, w, signed):
        """sign/zero extension of an IR value, distributed over no-wrap arithmetic"""
        c = self.c
        if v.kind == "int":
            x = v.val; fw = self.width(v.ty)
            if fw == 1: x = x & 1
            x &= (1 << fw) - 1
            if signed and x >> (fw - 1): x -= 1 << fw
            return c.leaf(c.const(w, x))
        if v.ty.kind == "int" and v.ty.bits == 1:
            b = self.val(v)
            return c.ite(b, c.leaf(c.const(w, -1 if signed else 1)), c.leaf(c.const(w, 0)))
        d = self.defs.get(v.name) if v.kind == "local" else None
        if d is not None and v.name not in self.iv:
            fl = d.attrs.get("flags", ())
            if d.op in ("add", "sub", "mul") and (("nsw" in fl) if signed else ("nuw" in fl)):
                a = self.ext(d.args[0], w, signed); b = self.ext(d.args[1], w, signed)
                return self.add(a, b) if d.op == "add" else self.sub(a, b) if d.op == "sub" else self.mul(a, b)
        return c.apply(("ext", w, signed), lambda p: self._extp(p, w, signed), self.val(v))
    def _extp(self, p, w, signed):
        c = self.c
        cv = c.scval(p) if signed else c.cval(p)
        if cv is not None: return c.const(w, cv)
        # affine in loop counters only: no wrap (the counters are bounded by the loop test)
        ok = all(all(c.alist[a][0] in ("k", "kx") for a in m) for m in p.d)
        if ok:
            half = 1 << (p.w - 1)
            return c.poly(w, {m: (x - (1 << p.w) if x >= half else x) for m, x in p.d.items()})
        a = c.single(p)
        if a is not None and c.alist[a][0] in ("sext", "zext"):
            kk = c.alist[a]
            if kk[0] == "zext": return c.var(w, ("zext", w, kk[2])) if kk[2].w < p.w else c.var(w, (("sext" if signed else "zext"), w, p))
            if signed: return c.var(w, ("sext", w, kk[2]))
        return c.var(w, (("sext" if signed else "zext"), w, p))
    def cond(self, v):
        return self.val(v)
    def icmp(self, pred, a, b):
        c = self.c
        f = {"eq": c.beq, "ne": lambda x, y: c.NOT(c.beq(x, y)), "ult": c.bult, "ugt": lambda x, y: c.bult(y, x), "uge": lambda x, y: c.NOT(c.bult(x, y)), "ule": lambda x, y: c.NOT(c.bult(y, x)),
             "slt": c.bslt, "sgt": lambda x, y: c.bslt(y, x), "sge": lambda x, y: c.NOT(c.bslt(x, y)), "sle": lambda x, y: c.NOT(c.bslt(y, x))}[pred]
        return c.apply(("icmp", pred), f, a, b)
    def _inst(self, d):
        c = self.c; op = d.op
        if op in ("add", "sub", "mul"):
            if d.ty.kind == "int" and d.ty.bits == 1:
                a, b = self.val(d.args[0]), self.val(d.args[1]); return c.ite(a, c.NOT(b), b) if op != "mul" else c.AND(a, b)
            a, b = self.val(d.args[0]), self.val(d.args[1])
            return self.add(a, b) if op == "add" else self.sub(a, b) if op == "sub" else self.mul(a, b)
        if op in ("and", "or", "xor"):
            a, b = self.val(d.args[0]), self.val(d.args[1])
            if d.ty.kind == "int" and d.ty.bits == 1:
                return c.AND(a, b) if op == "and" else c.OR(a, b) if op == "or" else c.ite(a, c.NOT(b), b)
            return c.apply("bit" + op, lambda x, y: self._bit(op, x, y), a, b)
        if op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a = self.val(d.args[0]); b = self.val(d.args[1])
            return c.apply(op, lambda x, y: self._shift(op, x, y), a, b)
        if op == "zext" or op == "sext":
            signed = op == "sext" or "nneg" in d.attrs.get("flags", ())
            if d.args[0].ty.bits == 1: signed = op == "sext"
            return self.ext(d.args[0], d.ty.bits, signed)
        if op == "trunc":
            a = self.val(d.args[0])
            if d.ty.bits == 1: return c.apply("truncb", lambda p: self._truncb(p), a)
            w = d.ty.bits
            return c.apply(("trunc", w), lambda p: self._trunc(p, w), a)
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"): return self.val(d.args[0])
        if op == "icmp":
            a, b = d.args
            if a.ty.kind == "int" and a.ty.bits == 1:
                x, y = self.val(a), self.val(b); e = c.ite(x, y, c.NOT(y)); return e if d.extra == "eq" else c.NOT(e)
            return self.icmp(d.extra, self.val(a), self.val(b))
        if op == "select":
            return c.ite(self.cond(d.args[0]), self.val(d.args[1]), self.val(d.args[2]))
        if op == "getelementptr": return self._gep(d.extra, d.args)
        if op == "load": return self._load(d)
        if op == "phi": return self._phi(d)
        if op == "call" or op == "callbr": return self._callres(d)
        if op == "alloca": return c.leaf(c.var(64, ("alloca", d.res)))
        if op == "extractvalue":
            src = d.args[0]
            r = self._ovf(d, src)
            if r is not None: return r
            key = ("xv", src.name if src.kind == "local" else repr(src), tuple(d.extra))
            return self._anyvar(d, key)
        return self._anyvar(d, ("inst", op, d.res))
    def _ovf(self, d, src):
        """value or flag of an arithmetic-with-overflow operation"""
        c = self.c
        s = self.defs.get(src.name) if src.kind == "local" else None
        if s is None or s.op != "call": return None
        nm = self.callee(s) or ""
        if not nm.startswith(("llvm.umul.with.overflow", "llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow")): return None
        a, b = self.val(s.args[0]), self.val(s.args[1]); w = self.width(s.args[0].ty)
        if w > 64: return None
        op = nm[5:9]
        if d.extra[0] == 0: return self.mul(a, b) if op == "umul" else self.add(a, b) if op in ("uadd", "sadd") else self.sub(a, b)
        if op in ("sadd", "ssub"):
            r = self.add(a, b) if op == "sadd" else self.sub(a, b)
            down = self.icmp("slt", b, self.k(0, w))
            if op == "ssub": down = c.AND(c.NOT(down), c.NOT(self.icmp("eq", b, self.k(0, w))))
            zero = self.icmp("eq", b, self.k(0, w))
            return c.ite(zero, c.F, c.ite(down, self.icmp("slt", a, r), self.icmp("slt", r, a)))
        if op == "usub": return self.icmp("ult", a, b)
        if op == "uadd": return self.icmp("ult", self.add(a, b), a)
        if any(isinstance(l, bool) for l in c.leaves(a)): return None
        nz = c.NOT(self.icmp("eq", b, self.k(0, w)))
        q = c.apply("udiv", lambda x, y: self._shift("udiv", x, y), self.k(-1, w), b)
        return c.AND(nz, self.icmp("ult", q, a))
    def _anyvar(self, d, key):
        ty = d.ty
        if ty is not None and ty.kind == "int" and ty.bits == 1: return self.c.lit(("bv",) + key)
        w = 64
        if ty is not None: w = self.width(ty)
        elif d.op == "extractvalue":
            src = self.defs.get(d.args[0].name) if d.args[0].kind == "local" else None
            t = src.ty if src is not None else d.args[0].ty
            try:
                t = self.mod.resolve(t).elems[d.extra[0]]
                if t.kind == "int" and t.bits == 1: return self.c.lit(("bv",) + key)
                w = self.width(t)
            except Exception: w = 64
        return self.c.leaf(self.c.var(w, key))
    def _truncb(self, p):
        c = self.c
        cv = c.cval(p)
        if cv is not None: return c.T if cv & 1 else c.F
        a = c.single(p)
        if a is not None and a in c.bool01: return c.NOT(c.beq(p, c.const(p.w, 0)))
        return c.lit(("bit0", p))
    def _trunc(self, p, w):
        c = self.c
        cv = c.cval(p)
        if cv is not None: return c.const(w, cv)
        # truncation is a ring homomorphism: distribute over the polynomial
        d = {}
        for m, x in p.d.items():
            d2 = c.const(w, x)
            for a in m:
                k = c.alist[a]
                if k[0] in ("sext", "zext") and k[2].w == w: f = k[2]
                elif k[0] in ("sext", "zext") and k[2].w < w: f = c.var(w, (k[0], w, k[2]))
                elif k[0] in ("k", "kx"): f = c.poly(w, {(a,): 1})
                else: f = c.var(w, ("trunc", w, c.poly(p.w, {(a,): 1})))
                d2 = c.pmul(d2, f)
            for mm, xx in d2.d.items(): d[mm] = d.get(mm, 0) + xx
        return c.poly(w, d)
    def _bit(self, op, x, y):
        c = self.c; w = x.w; full = (1 << w) - 1
        cx, cy = c.cval(x), c.cval(y)
        if cx is not None and cy is not None: return c.const(w, {"and": cx & cy, "or": cx | cy, "xor": cx ^ cy}[op])
        if cx is not None: x, y, cx, cy = y, x, cy, cx
        if op == "xor":
            if cy == full: return c.padd(c.const(w, full), x, -1)
            if cy == 0: return x
            if x is y: return c.const(w, 0)
        if op == "or":
            if cy == 0 or x is y: return x
            if cy == full: return y
            # or(x,y) = x + y - and(x,y)
            return c.padd(c.padd(x, y), self._bit("and", x, y), -1)
        if op == "and":
            if cy == 0: return y
            if cy == full or x is y: return x
            if cy is not None:
                nb = cy.bit_length()
                if cy == (1 << nb) - 1:
                    ax = c.single(x)
                    if ax is not None and c.alist[ax][0] == "zext" and c.alist[ax][2].w <= nb: return x
            # canonicalise complemented masks: a & ~m = a - (a & m)
            def flip(p):
                q = c.padd(c.const(w, full), p, -1)
                return q
            for a, b in ((x, y), (y, x)):
                q = flip(b)
                if self._masky(q) < self._masky(b):
                    return c.padd(a, self._bit("and", a, q), -1)
            # idempotence: (a & m) & m
            for a, b in ((x, y), (y, x)):
                k = c.single(a)
                if k is not None and c.alist[k][0] == "and" and b in c.alist[k][1:]: return a
        if x.id > y.id: x, y = y, x
        return c.var(w, (op, x, y))
    def _masky(self, p):
        """ordering used to pick between a mask and its complement: fewer negative leading coefficients first"""
        neg = sum(1 for m, v in p.d.items() if m and v >> (p.w - 1))
        cv = self.c.cval(p)
        if cv is not None: neg = 1 if cv >> (p.w - 1) else 0
        return neg
    def _shift(self, op, x, y):
        c = self.c; w = x.w
        cx, cy = c.cval(x), c.cval(y)
        if cy is not None and cy < w and op in ("shl", "lshr", "ashr"):
            if op == "shl": return c.pscale(x, 1 << cy)
            if cy == 0: return x
            if cx is not None:
                if op == "lshr": return c.const(w, cx >> cy)
                return c.const(w, c.scval(x) >> cy)
            a = c.single(x)
            if a is not None and c.alist[a][0] == op and c.cval(c.alist[a][2]) is not None:
                t = c.cval(c.alist[a][2]) + cy
                if t < w: return c.var(w, (op, c.alist[a][1], c.const(w, t)))
            return c.var(w, (op, x, y))
        if op == "shl": return c.pmul(x, c.var(w, ("pow2", y)))
        if op in ("udiv",) and cy is not None and cy and cy & (cy - 1) == 0: return self._shift("lshr", x, c.const(w, cy.bit_length() - 1))
        if op in ("urem",) and cy is not None and cy and cy & (cy - 1) == 0: return self._bit("and", x, c.const(w, cy - 1))
        if op in ("udiv", "urem") and cx is not None and cy: return c.const(w, cx // cy if op == "udiv" else cx % cy)
        if op == "udiv":
            a = c.single(y)
            if a is not None and c.alist[a][0] == "pow2": return self._shift("lshr", x, c.alist[a][1])
        if op == "urem":
            a = c.single(y)
            if a is not None and c.alist[a][0] == "pow2": return self._bit("and", x, c.padd(y, c.const(w, 1), -1))
        return c.var(w, (op, x, y))
    # ---------------------------------------------------------------- memory
    def _stores_by_tag(self):
        if self._fstores is None:
            self._fstores = {}
            for b in self.cfg.rpo:
                for i in self.f.bmap[b].insts:
                    if i.op == "store":
                        t = self.mod.tbaa_tag(i.tbaa)
                        if t: self._fstores.setdefault((t[0], t[1]), []).append(i)
        return self._fstores
    def _load(self, d):
        c = self.c
        tag = self.mod.tbaa_tag(d.tbaa)
        addr = self.val(d.args[0])
        w = self.width(d.ty)
        imm = tag is not None and self.immutable(tag)
        if imm:
            # forward a unique dominating store of the same field at the same address
            st = self._stores_by_tag().get((tag[0], tag[1]), [])
            doms = [s for s in st if self.dominates(s, d) and self.val(s.args[1]) is addr]
            if len(doms) == 1:
                s0 = doms[0]
                others = [s for s in st if s is not s0 and self._between(s0, s, d)]
                if all(self.val(s.args[1]) is not addr for s in others): return self.val(s0.args[0])
            if any(self.val(s.args[1]) is addr for s in st): imm = False
        ver = None if imm else d.res
        if d.attrs.get("flags") and "volatile" in d.attrs["flags"]: ver = d.res
        f = self.field(tag)
        isbool = "range" in d.attrs["md"] and self.mod.md.get(d.attrs["md"]["range"], "").startswith("!{i8 0, i8 2}")
        def leafload(p):
            ro = self.roaddr(p, w) if self.roaddr else None      # memory the function may only read: (name, is bool)
            a = c.atom(("load", p, w, None if ro else ver))
            if ro:
                c.names.setdefault(a, ro[0])
                if ro[1]: c.bool01.add(a)
                return c.poly(w, {(a,): 1})
            if f and f[2]: c.names.setdefault(a, f)
            elif tag is not None: c.names.setdefault(a, (tag[0], tag[1], None))
            if isbool: c.bool01.add(a)
            return c.poly(w, {(a,): 1})
        r = c.apply(("load", w, ver, f, isbool, self.roaddr is not None), leafload, addr)
        if d.ty.kind == "int" and d.ty.bits == 1: return c.apply("truncb", lambda p: self._truncb(p), r)
        return r
    def ld(self, addr, struct=None, path=None, w=64, off=None):
        """expected term: immutable load of a named field at addr (Node or Poly = base of the struct)"""
        c = self.c
        addr = addr if isinstance(addr, Node) else c.leaf(addr)
        isbool = False
        if path is not None:
            o, sz, ty = field_of(self.mod, self.structs, struct, path)
            w = sz * 8; isbool = ty in ("bool", "_Bool"); addr = self.add(addr, self.k(o)); nm = (struct, o, path)
        else: nm = None
        def f(p):
            a = c.atom(("load", p, w, None))
            if nm: c.names.setdefault(a, nm)
            if isbool: c.bool01.add(a)
            return c.poly(w, {(a,): 1})
        return c.apply(("ld", w, nm, isbool), f, addr)
    def mloads(self, addr, w=64):
        """values of the (non-unified) loads at address addr, in program order: [(inst, Node)]"""
        out = []
        for b in self.cfg.rpo:
            for i in self.f.bmap[b].insts:
                if i.op == "load" and self.width(i.ty) == w and self.val(i.args[0]) is addr: out.append((i, self.val(self._resval(i))))
        return out
    def _between(self, a, s, b):
        """store s may execute between a and b"""
        ra = self.cfg.reachable(a.block.name)
        after = s.block.name in ra or (s.block is a.block and s.idx > a.idx)
        rs = self.cfg.reachable(s.block.name)
        before = b.block.name in rs or (s.block is b.block and s.idx < b.idx)
        return after and before
    def dominates(self, a, b):
        if a.block is b.block: return a.idx < b.idx
        return self.cfg.dom(a.block.name, b.block.name)
    def _callres(self, d):
        c = self.c
        nm = self.callee(d)
        pc = self.mod.pure.get(nm) if getattr(self.mod, "pure", None) else None
        if nm == "sysconf" and d.args[0].kind == "int" and d.args[0].val == 30 or nm == "getpagesize":
            a = c.atom(("page",)); c.nonneg_atoms.add(a)
            return c.leaf(c.poly(self.width(d.ty), {(a,): 1}))
        if nm in PURE_CALLS or pc:
            args = tuple(self.val(a) for a in d.args)
            if pc: nm = pc
            if d.ty.kind == "int" and d.ty.bits == 1: return c.lit(("fcallb", nm) + tuple(a.id for a in args))
            w = self.width(d.ty)
            if nm.startswith("llvm.threadlocal.address"): return args[0]
            if nm.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                lt = self.icmp("ult" if nm[5] == "u" else "slt", args[0], args[1])
                return c.ite(lt, args[0], args[1]) if "min" in nm else c.ite(lt, args[1], args[0])
            if nm.startswith("llvm.usub.sat"):
                return c.ite(self.icmp("ult", args[0], args[1]), self.k(0, w), self.sub(args[0], args[1]))
            if nm.startswith("llvm.uadd.sat"):
                s = self.add(args[0], args[1])
                return c.ite(self.icmp("ult", s, args[0]), self.k(-1, w), s)
            return c.apply(("fcall", nm, w), lambda *ps: c.var(w, ("fcall", nm, tuple(ps))), *args) if args else c.leaf(c.var(w, ("fcall", nm, ())))
        return self._anyvar(d, ("call", nm, self.callno[id(d)]))
    # ---------------------------------------------------------------- phis and loops
    def _phi(self, d):
        c = self.c; b = d.block.name; cfg = self.cfg
        if b in cfg.loops:
            l = cfg.loops[b]
            outs = [(v, p) for v, p in d.extra if p not in l.blocks]
            if d.res in self.iv:
                _, _, step, _ = self.iv[d.res]
                w = self.width(d.ty)
                init = self._gate([(v, p) for v, p in outs], b, l)
                sp = self.k(0, w)
                for sg, sv, sc in step:
                    x = self.k(sv[1], w) if sv[0] == "i" else self._steptail(sv[1], w)
                    if sc != 1: x = self.mul(x, self.k(sc, w))
                    sp = self.add(sp, x) if sg > 0 else self.sub(sp, x)
                kk = c.leaf(c.poly(w, {(self.k_atom(l),): 1}))
                return self.add(init, self.mul(sp, kk))
            # loop-invariant phi?
            key = ("mu", self.f.name, d.res)
            if d.ty.kind == "int" and d.ty.bits == 1: return c.lit(("mub", self.f.name, d.res))
            return c.leaf(c.var(self.width(d.ty), key))
        return self._gate(d.extra, b, None)
    def _steptail(self, name, w):
        from ir import Val
        d = self.defs.get(name)
        v = Val("local", name, d.ty if d is not None else self.f.params[self.pidx[name]][1])
        if self.width(v.ty) != w: return self.ext(v, w, True)
        return self.val(v)
    def _gate(self, inc, b, ownloop):
        """gated value of a join: inc = [(Val, predblock)]"""
        c = self.c; cfg = self.cfg
        vals = []
        for v, p in inc:
            if p in cfg.doomed: continue
            if p not in cfg.num: continue
            x = self.val(v)
            x = self.leave(x, p, b)
            vals.append((x, p))
        if not vals:
            return self.val(inc[0][0])
        if all(x is vals[0][0] for x, p in vals): return vals[0][0]
        d = cfg.idom[b]
        r = vals[-1][0]
        for x, p in vals[-2::-1]:
            r = c.ite(self.edge_from(d, p, b), x, r)
        return r
    def leave(self, x, src, dst):
        """value x computed at src used after the edge src->dst: close over the loops left"""
        l = self.cfg.inner[src]
        while l is not None and dst not in l.blocks:
            x = self.close(x, l, src, dst)
            l = l.parent
        return x
    def close(self, x, l, src, dst):
        c = self.c
        ka = self.k_atom(l)
        if ka not in c.deep_atoms(x): return x
        self._solve(l)
        if l.counter == (src, dst) and l.K is not None:
            rep = l.K
        else:
            rep = c.leaf(c.var(64, ("kx", (l.id, src, dst))))
        return self.subst(x, ka, rep)
    def subst(self, x, ka, rep):
        """replace loop counter atom ka by Node rep (64-bit) in Node x"""
        c = self.c
        if x.b is None:
            if isinstance(x.leaf, bool): return x
            return self.subst_poly(x.leaf, ka, rep)
        hi = self.subst(x.hi, ka, rep); lo = self.subst(x.lo, ka, rep)
        return c.ite(self.subst_b(x.b, ka, rep), hi, lo)
    def subst_b(self, b, ka, rep):
        c = self.c
        k = c.blist[b]
        if ka not in c.deep_atoms(k): return c.node(b, c.T, c.F)
        if k[0] == "eq":
            p = self.subst_poly(k[1], ka, rep); return c.apply("eq0", lambda q: c.beq(q, c.const(q.w, 0)), p)
        if k[0] in ("ult", "slt"):
            p = self.subst_poly(k[1], ka, rep); q = self.subst_poly(k[2], ka, rep)
            return c.apply(k[0] + "_", c.bult if k[0] == "ult" else c.bslt, p, q)
        nk = tuple(self._subst_any(y, ka, rep) for y in k)
        return c.lit(nk)
    def _subst_any(self, y, ka, rep):
        if isinstance(y, Poly):
            n = self.subst_poly(y, ka, rep)
            return n.leaf if n.b is None else n
        if isinstance(y, Node): return self.subst(y, ka, rep)
        if isinstance(y, tuple): return tuple(self._subst_any(z, ka, rep) for z in y)
        return y
    def subst_poly(self, p, ka, rep):
        c = self.c
        if ka not in c.deep_atoms(p): return c.leaf(p)
        tot = c.leaf(c.const(p.w, 0))
        for m, co in p.d.items():
            t = c.leaf(c.const(p.w, co))
            for a in m:
                if a == ka:
                    f = rep if p.w == 64 else c.apply(("trunc", p.w), lambda q: self._trunc(q, p.w), rep)
                elif ka in c.deep_atoms(c.alist[a]):
                    f = self._rebuild(c.alist[a], p.w, ka, rep)
                else: f = c.leaf(c.poly(p.w, {(a,): 1}))
                t = self.mul(t, f)
            tot = self.add(tot, t)
        return tot
    def _rebuild(self, key, w, ka, rep):
        c = self.c
        parts = [self._subst_any(y, ka, rep) for y in key]
        if any(isinstance(y, Node) and not isinstance(z, Node) for y, z in zip(parts, key)):
            # a sub-term became conditional: distribute
            idx = [i for i, (y, z) in enumerate(zip(parts, key)) if isinstance(y, Node) and not isinstance(z, Node)]
            def f(*ps):
                q = list(parts)
                for i, pp in zip(idx, ps): q[i] = pp
                return self._mkatom(tuple(q), w)
            return c.apply(("rebuild", w, tuple(z if not isinstance(z, Node) else z.id for z in parts if not isinstance(z, Node)), key), f, *[parts[i] for i in idx])
        return c.leaf(self._mkatom(tuple(parts), w))
    def _mkatom(self, key, w):
        c = self.c
        if key[0] == "and" or key[0] == "xor": return self._bit(key[0], key[1], key[2])
        if key[0] in ("lshr", "ashr", "udiv", "urem", "sdiv", "srem"): return self._shift(key[0], key[1], key[2])
        if key[0] in ("sext", "zext"): return self._extp(key[2], w, key[0] == "sext")
        return c.var(w, key)
    # ---------------------------------------------------------------- loop solving
    def _solve_loops(self):
        cfg = self.cfg
        for l in cfg.loops.values():
            l.exits = []; l.counter = None; l.K = None; l.solved = False
            for b in cfg.rpo:
                if b in l.blocks:
                    for s in cfg.succ[b]:
                        if s not in l.blocks: l.exits.append((b, s))
        for l in sorted(self.cfg.loops.values(), key=lambda l: (-l.depth(), l.order)):
            self._solve(l)
    def _solve(self, l):
        if l.solved: return
        l.solved = True
        cfg = self.cfg; c = self.c
        cands = []
        for (b, s) in l.exits:
            if s in cfg.doomed: continue
            if not all(cfg.dom(b, x) for x in l.latches): continue
            if cfg.inner[b] is not l: continue
            t = self.f.bmap[b].insts[-1]
            if t.op != "br" or len(t.extra) != 2: continue
            cond = self.val(t.args[0])
            cont = cond if t.extra[1] == s else c.NOT(cond)
            K = self._count(cont, l)
            if K is not None: cands.append(((b, s), K))
        if cands:
            l.counter, l.K = cands[0]
        # drop cached values that may have been computed before the count was known
    def _count(self, cont, l):
        """number K of leading iterations in which the continue-condition holds (as 64-bit Node)"""
        c = self.c; ka = self.k_atom(l)
        if cont.b is None: return None
        for a in c.deep_atoms(cont):       # a value carried around the loop in no closed form: not an affine bound
            k = c.alist[a]
            if k[0] == "mu" and k[1] == self.f.name and k[2] in self.defs and self.defs[k[2]].ty.kind == "int" and self.defs[k[2]].block.name in l.blocks: return None
        if not ka in c.deep_atoms(c.blist[cont.b]) and cont.hi.b is not None and cont.lo.b is not None:
            # the bound is selected by a condition that does not change in the loop
            hi, lo = self._count(cont.hi, l), self._count(cont.lo, l)
            return None if hi is None or lo is None else c.ite(self.c.mk(cont.b, c.T, c.F), hi, lo)
        if not ({id(cont.hi.leaf), id(cont.lo.leaf)} == {id(True), id(False)} if cont.hi.b is None and cont.lo.b is None else False):
            # conjunction of bounds: the smallest of their counts
            ls = c.implied_literals(cont)
            lits = [c.node(b, c.T, c.F) if v else c.node(b, c.F, c.T) for b, v in ls]
            if len(lits) < 2 or c.AND(*lits) is not cont: return None
            K = None; zero = c.leaf(c.const(64, 0))
            for x in lits:
                if ka in c.deep_atoms(x):
                    n = self._count(x, l)
                    if n is None: return None
                    n = c.ite(self.subst(x, ka, zero), n, zero)
                else: n = c.ite(x, c.leaf(c.const(64, -1)), zero)
                K = n if K is None else c.ite(self.icmp("ult", n, K), n, K)
            return K
        pos = cont.hi is c.T
        key = c.blist[cont.b]
        def aff(p):
            """p = A + s*k, with A free of k; returns (A, s) or None"""
            A = {}; s = {}
            for m, co in p.d.items():
                n = m.count(ka)
                if n == 0:
                    if any(ka in c.deep_atoms(c.alist[a]) for a in m): return None
                    A[m] = co
                elif n == 1:
                    mm = list(m); mm.remove(ka)
                    if any(ka in c.deep_atoms(c.alist[a]) for a in mm): return None
                    s[tuple(mm)] = co
                else: return None
            return c.poly(p.w, A), c.poly(p.w, s)
        if key[0] == "eq" and not pos:
            r = aff(key[1])
            if r is None: return None
            A, s = r
            return self._div(c.pneg(A), s, exact=True)
        if key[0] in ("ult", "slt"):
            x = aff(key[1]); y = aff(key[2])
            if x is None or y is None: return None
            signed = key[0] == "slt"
            xs, ys = c.scval(x[1]), c.scval(y[1])
            if pos:     # x < y continues
                if y[1].d == {} and not x[1].d == {}:        # x ascending (assumed non-wrapping)
                    if xs is not None and xs < 0: return None
                    return self._div(c.padd(y[0], x[0], -1), x[1], exact=False)
                if x[1].d == {} and ys is not None and ys < 0:  # y descending:  y0 + ys*k > x0
                    return self._div(c.padd(y[0], x[0], -1), c.pneg(y[1]), exact=False)
            else:       # x >= y continues
                if y[1].d == {} and xs is not None and xs < 0:  # x descending: x0 - s*k >= y0
                    return self._div(c.padd(c.padd(x[0], y[0], -1), c.const(x[0].w, 1)), c.pneg(x[1]), exact=False)
                if x[1].d == {} and y[1].d and (ys is None or ys > 0):
                    return self._div(c.padd(c.padd(x[0], y[0], -1), c.const(x[0].w, 1)), y[1], exact=False)
        return None
    def _div(self, diff, s, exact):
        """ceil(diff / s) as Node"""
        c = self.c; w = diff.w
        sv = c.scval(s)
        if sv is not None and sv < 0: diff = c.pneg(diff); s = c.pneg(s); sv = -sv
        if sv == 1: q = diff
        else:
            q = self.pdiv(diff, s)
            if q is None: q = c.var(w, ("ceildiv", diff, s))
        if w == 64: return c.leaf(q)
        # distribute sign extension over sums of atoms and constants: the counter does not wrap
        d = c.const(64, 0)
        half = 1 << (w - 1)
        for m, co in q.d.items():
            co = co - (1 << w) if co >= half else co
            t = c.const(64, co)
            if m: t = c.pmul(t, self._extp(c.poly(w, {m: 1}), 64, True))
            d = c.padd(d, t)
        return c.leaf(d)
    def pdiv(self, a, b):
        """exact polynomial quotient a/b for monomial-ish b, or None"""
        c = self.c
        if not a.d: return a
        if len(b.d) != 1: return None
        (mb, cb), = b.d.items()
        out = {}
        half = 1 << (a.w - 1)
        scb = cb - (1 << a.w) if cb >= half else cb
        for m, co in a.d.items():
            co = co - (1 << a.w) if co >= half else co
            mm = list(m)
            for x in mb:
                if x not in mm: return None
                mm.remove(x)
            if co % scb: return None
            out[tuple(mm)] = co // scb
        return c.poly(a.w, out)
    # ---------------------------------------------------------------- reaching conditions
    def edge_cond(self, b, s):
        """condition of taking edge b->s given b executes (modulo doomed alternatives)"""
        c = self.c; cfg = self.cfg
        t = self.f.bmap[b].insts[-1]
        ss = cfg.succ[b]
        if t.op == "br":
            if len(t.extra) == 1 or t.extra[0] == t.extra[1]: return c.T
            if s not in cfg.doomed and any(x in cfg.doomed for x in ss): return c.T
            cd = self.cond(t.args[0])
            r = c.OR(*([cd] if t.extra[0] == s else []), *([c.NOT(cd)] if t.extra[1] == s else []))
            return self.assume(b, r)
        if t.op == "switch":
            x = self.val(t.args[0]); w = self.width(t.args[0].ty)
            alts = {}
            dflt, cases = t.extra
            r = c.F
            nond = {y for y in ss if y not in cfg.doomed}
            allc = c.F
            for v, l in cases:
                e = self.icmp("eq", x, self.k(v, w))
                allc = c.OR(allc, e)
                if l == s: r = c.OR(r, e)
            if dflt == s: r = c.OR(r, c.NOT(allc))
            if s not in cfg.doomed:
                if nond == {s}: return c.T
                if dflt in cfg.doomed and len(nond) == 2 and dflt != s:
                    # two live cases: make them complementary
                    first = [l for v, l in cases if l in nond][0]
                    if s != first:
                        fc = c.OR(*[self.icmp("eq", x, self.k(v, w)) for v, l in cases if l == first])
                        return self.assume(b, c.NOT(fc))
            return self.assume(b, r)
        if t.op in ("callbr", "invoke"):
            if len(ss) == 1: return c.T
            live = [x for x in ss if x not in cfg.doomed]
            if live == [s]: return c.T
            r = c.T
            for x in ss:
                if x == s:
                    if x == ss[-1]: return r
                    return c.AND(r, c.lit(("goto", self.f.name, b, x)))
                r = c.AND(r, c.NOT(c.lit(("goto", self.f.name, b, x))))
        return c.T
    def simp(self, n):
        """apply what is known when a break exit was taken: its in-iteration condition held"""
        c = self.c
        key = ("simp", n.id)
        r = self.cmemo.get(key)
        if r is not None: return r
        r = n
        for b in sorted(c.support(n)):
            k = c.blist[b]
            if k[0] != "brk" or k[1] != self.f.name: continue
            fs = self.brk_facts(b)
            if not fs: continue
            hi = c.restrict(r, b, True); lo = c.restrict(r, b, False)
            for bb, v in fs:
                if bb != b: hi = c.restrict(hi, bb, v)
            r = c.ite(c.node(b, c.T, c.F), hi, lo)
        self.cmemo[key] = r
        return r
    def brk_facts(self, b):
        r = self.cmemo.get(("bf", b))
        if r is not None: return r
        self.cmemo[("bf", b)] = []
        l, e, cd = self.break_info(b)
        out = self.c.implied_literals(self.close(cd, l, e[0], e[1]))
        # only literals about this very exit (they mention its exit counter)
        kx = self.c.atoms.get(("kx", (l.id, e[0], e[1])))
        out = [(x, v) for x, v in out if kx is not None and kx in self.c.deep_atoms(self.c.blist[x])]
        self.cmemo[("bf", b)] = out
        return out
    def assume(self, b, cond):
        """simplify by literals known from dominating loop exits"""
        c = self.c
        for (bb, v) in self._facts(b):
            cond = c.restrict(cond, bb, v)
        return self.simp(cond)
    def _facts(self, b):
        r = self.cmemo.get(("facts", b))
        if r is not None: return r
        self.cmemo[("facts", b)] = []
        out = []
        cfg = self.cfg; c = self.c
        x = b
        while True:
            ps = cfg.pred[x]
            if len(ps) == 1 and cfg.inner[ps[0]] is not None and x not in cfg.inner[ps[0]].blocks:
                l = cfg.inner[ps[0]]
                if not (l.counter == (ps[0], x)):
                    cd = self.rc_in(l, ps[0])
                    cd = c.AND(cd, self.edge_cond(ps[0], x))
                    cd = self.close(cd, l, ps[0], x)
                    for lit in c.implied_literals(cd): out.append(lit)
            if x == cfg.entry: break
            x = cfg.idom[x]
        self.cmemo[("facts", b)] = out
        return out
    def rc_in(self, l, b):
        """reaching condition of block b within one iteration of loop l (None: function)"""
        return self._region(l, l.header if l is not None else self.cfg.entry).get(b, self.c.F)
    def edge_from(self, d, p, b):
        """condition (from block d, within d's region) of reaching b through edge p->b"""
        cfg = self.cfg
        l = cfg.inner[d]
        # if d is inside a loop left before reaching b, start from the outermost such loop's level
        start = d
        while l is not None and b not in l.blocks: l = l.parent
        st = start if cfg.inner[start] is l else self._lift_start(start, l)
        key = ("back", st, b)
        only = self.cmemo.get(key)
        if only is None:
            only = {st}; stack = [q for q in cfg.pred[b]]
            while stack:
                x = stack.pop()
                if x in only: continue
                only.add(x)
                stack.extend(cfg.pred[x])
            self.cmemo[key] = only
        reg = self._region(l, st, only, b)
        return reg.get(("e", p, b), self.c.F)
    def _lift_start(self, d, l):
        x = self.cfg.inner[d]
        while x is not None and x.parent is not l: x = x.parent
        return x.header if x is not None else d
    def _region(self, l, start, only=None, target=None):
        """reaching conditions of blocks and edges at loop level l, from block start; memoised.
        With a target: only blocks that can reach it are visited, and it is not entered."""
        key = (l.id if l is not None else None, start, target)
        r = self.rcmemo.get(key)
        if r is not None: return r
        c = self.c; cfg = self.cfg
        res = {}
        self.rcmemo[key] = res
        inl = (lambda b: b in l.blocks) if l is not None else (lambda b: True)
        def top(b):
            """b, or the child loop of l containing b"""
            x = cfg.inner[b]
            if x is l: return None
            while x is not None and x.parent is not l: x = x.parent
            return x
        acc = {start if top(start) is None else top(start).header: c.T}
        lo = cfg.num[start]
        for b in cfg.rpo:
            if b not in acc: continue
            if only is not None and (b not in only or (b == target and b != start)): continue
            ch = top(b)
            rcb = acc[b]
            if ch is None:
                res[b] = rcb
                for s in cfg.succ[b]:
                    if only is not None and s != target and s not in only: continue
                    ec = c.AND(rcb, self.edge_cond(b, s))
                    self._emit(res, acc, l, b, s, ec, inl, start)
            elif ch.header == b:
                res[b] = rcb
                # inner blocks: conditions relative to this region are those of reaching the loop
                ex = self.exit_conds(ch)
                for (u, s), ecnd in ex.items():
                    if only is not None and s != target and s not in only: continue
                    self._emit(res, acc, l, u, s, c.AND(rcb, ecnd), inl, start)
        return res
    def _emit(self, res, acc, l, u, s, cond, inl, start):
        c = self.c
        k = ("e", u, s)
        res[k] = c.OR(res.get(k, c.F), cond)
        if not inl(s): return
        if l is not None and s == l.header: return
        acc[s] = c.OR(acc.get(s, c.F), cond)
    def exit_conds(self, l):
        """edge -> condition at the parent level of leaving l through it (modulo doomed exits)"""
        key = ("exits", l.id)
        r = self.rcmemo.get(key)
        if r is not None: return r
        self._solve(l)
        c = self.c; cfg = self.cfg
        live = [e for e in l.exits if e[1] not in cfg.doomed]
        dead = [e for e in l.exits if e[1] in cfg.doomed]
        out = {}
        reg = self._region(l, l.header)
        if len(live) == 1: out[live[0]] = c.T
        else:
            order = [e for e in live if e != l.counter]
            last = l.counter if l.counter is not None else (order.pop() if order else None)
            rest = c.T
            for e in order:
                a = c.lit(("brk", self.f.name, self.brk_key(l, e, reg)))
                out[e] = c.AND(rest, a); rest = c.AND(rest, c.NOT(a))
            if last is not None: out[last] = rest
        for e in dead:
            out[e] = c.lit(("brk", self.f.name, self.brk_key(l, e, reg)))
        self.rcmemo[key] = out
        return out
    def brk_key(self, l, e, reg):
        return (l.id, e[0], e[1])
    def break_info(self, b):
        """(loop, edge, in-iteration condition) of a 'brk' boolean atom"""
        k = self.c.blist[b]
        if k[0] != "brk": return None
        lid, u, s = k[2]
        l = self.cfg.loops[lid]
        return l, (u, s), self._region(l, l.header).get(("e", u, s), self.c.F)
    # ---------------------------------------------------------------- public queries
    def guard(self, b):
        """[(loop or None, condition)] from outermost to innermost: the reaching condition of block b"""
        cfg = self.cfg
        chain = []
        l = cfg.inner[b]; tgt = b
        while True:
            chain.append((l, self.rc_in(l, tgt)))
            if l is None: break
            tgt = l.header; l = l.parent
        return chain[::-1]
    def full_guard(self, b):
        return self.c.AND(*[g for l, g in self.guard(b)])
    def iter_guards(self, b):
        """like guard(), with each loop's own continue condition (k < K) taken for granted"""
        out = []
        for l, g in self.guard(b):
            if l is not None and l.counter is not None:
                u, s = l.counter
                t = self.f.bmap[u].insts[-1]
                cd = self.val(t.args[0]); cont = cd if t.extra[1] == s else self.c.NOT(cd)
                for x, v in self.c.implied_literals(cont): g = self.c.restrict(g, x, v)
            out.append((l, self.simp(g)))
        return out
    def loops_of(self, b):
        out = []; l = self.cfg.inner[b]
        while l is not None: out.append(l); l = l.parent
        return out[::-1]
    def effects(self):
        if getattr(self, "_eff", None) is not None: return self._eff
        out = []
        for n, b in enumerate(self.cfg.rpo):
            blk = self.f.bmap[b]
            for i in blk.insts:
                e = None
                if i.op == "store":
                    e = Effect(kind="store", addr=self.val(i.args[1]), val=self.val(i.args[0]), tag=self.mod.tbaa_tag(i.tbaa), width=self._swidth(i))
                elif i.op in ("call", "callbr"):
                    nm = self.callee(i)
                    if ".with.overflow." in nm: continue
                    if nm in NOEFFECT or nm in PURE_CALLS or nm in (getattr(self.mod, "pure", None) or ()): continue
                    e = Effect(kind="call", name=nm, args=[self.val(a) for a in i.args], res=(self.val(self._resval(i)) if i.res is not None else None))
                    if i.extra[0] == "ind": e.fn = self.val(i.extra[1])
                elif i.op == "ret":
                    e = Effect(kind="ret", val=self.val(i.args[0]) if i.args else None)
                elif i.op in ("cmpxchg", "atomicrmw", "fence"):
                    e = Effect(kind=i.op, args=[self.val(a) for a in i.args])
                if e is not None:
                    e.inst = i; e.block = b; e.loops = self.loops_of(b); e.doomed = b in self.cfg.doomed; e.order = (n, i.idx)
                    e.site = self.site(i)
                    out.append(e)
        self._eff = out
        return out
    def _resval(self, i):
        from ir import Val
        return Val("local", i.res, i.ty)
    def _swidth(self, i):
        ty = i.args[0].ty
        return self.mod.sizeof(ty)
    def site(self, i):
        ch = self.mod.loc(i.dbg)
        if not ch: return "%s (%s)" % (self.f.name, i.op)
        l, f, fl = ch[0]
        s = "%s:%d in %s" % ((fl or "?").replace("/repo/", ""), l, f)
        if len(ch) > 1: s += " (inlined into %s)" % self.f.name
        return s
    def ret_value(self):
        """gated return value over all live return blocks"""
        c = self.c
        rs = [e for e in self.effects() if e.kind == "ret"]
        r = rs[-1].val
        for e in rs[-2::-1]: r = c.ite(self.full_guard(e.block), e.val, r)
        return r


def field_of(mod, structs, struct, path):
    """(byte offset, byte size, type name) of a possibly nested member, from the debug information"""
    off = 0; cur = struct
    parts = path.split(".")
    for n, p in enumerate(parts):
        o, sz, ty = structs[cur]["members"][p]
        off += o
        tn = mod.di_type_name(ty)
        if n + 1 < len(parts): cur = tn[7:]
    return off, sz, tn
