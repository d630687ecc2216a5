"""smp.c: number of possible CPUs (C26).  The public function with all helpers inlined is cut at each open, read, byte
inspected, number conversion and directory entry; each segment between two of them is compared with the transition the
property allows, starting from every state the previous event can leave (inductive bounds on the read position)."""
import random
import cc, vg, decide
from seg import Seg, Cyclic
from rules_reg import V, gstr, idx
SRC = "src/smp.c"; FN = "get_possible_cpus_array_len"
P = ("C26",)
INTMAX = (1 << 31) - 1; LONGMAX = (1 << 63) - 1; NPROC_CONF = 83; EINTR = 4
KIND = {"open": "open", "open64": "open", "openat": "open", "read": "read", "strtoul": "num", "__isoc23_strtoul": "num", "opendir": "opendir", "readdir": "readdir", "readdir64": "readdir"}
STRTOL = ("strtol", "__isoc23_strtol")
D_TYPE, D_NAME = 18, 19

class A:
    def __init__(self, rep, m):
        self.rep, self.m = rep, m; self.v = V(rep, FN)
        cache = {i.args[1].name for b in m.funcs[FN].blocks for i in b.insts if i.op == "store" and i.args[1].kind == "global"}
        self.cache = cache.pop() if len(cache) == 1 else None
        self.s = Seg(m, FN, None, m.di_structs(), fwd={self.cache} - {None}, loads=True); self.g, self.c = self.s.g, self.s.c
        g = self.g
        self.bufs = {}; self.kinds = {}
        for b in g.cfg.rpo:
            for i in g.f.bmap[b].insts:
                if i.op == "call" and g.callee(i) in KIND: self.kinds[id(i)] = KIND[g.callee(i)]
        self.insts = [i for b in g.cfg.rpo for i in g.f.bmap[b].insts]
        self.reads = [i for i in self.insts if self.kinds.get(id(i)) == "read"]
    def kind(self, i):
        if i is None: return "entry"
        if i.op == "ret": return "ret"
        if i.op == "unreachable": return "dead"
        return self.kinds.get(id(i))
    def base(self, n):
        """(alloca atom, offset poly) of an address"""
        c = self.c
        if n.b is not None: return None
        al = [a for a in c.atoms_of(n.leaf) if c.alist[a][0] == "alloca"]
        if len(al) != 1: return None
        return al[0], c.padd(n.leaf, c.pvar(n.leaf.w, al[0]) if hasattr(c, "pvar") else self.atom(al[0], n.leaf.w), -1)
    def atom(self, a, w): return self.c.var(w, self.c.alist[a])
    def arg(self, q, i, k): self.g.tmemo = dict(q.env) if q is not None else {}; return self.g.val(i.args[k])
    def sv(self, i): self.g.tmemo = {}; return self.g.opaque(i)

def run(rep, shared=None):
    # the front end adds a check to each signed operation: overflow becomes a branch to a trap
    m = cc.module(SRC, ("-fsanitize=signed-integer-overflow", "-fsanitize-trap=all")); rep.analysed(FN); rep.analysed("rseq_get_max_nr_cpus")
    wrapper(rep)
    if FN not in m.funcs: rep.und(P, "cpu", FN, "not found"); return
    for fn in m.funcs:
        if fn != FN: rep.und(P, "cpu-other", fn, "function outside the analysed one")
    a = A(rep, m)
    calls = {a.g.callee(i) for i in a.insts if i.op == "call" and not a.g.callee(i).startswith("llvm.")}
    unknown = {x for x in calls if "trap" not in x} - set(KIND) - set(STRTOL) - {"close", "closedir", "strncmp", "sysconf", "perror", "__errno_location", "__assert_fail"}
    if not unknown and (a.cache is None or not a.reads or not any(i.op == "call" and a.kind(i) == "num" for i in a.insts)):
        rep.bad(P, "cpu", FN, "the count is never remembered" if a.cache is None else "the kernel's list of possible CPUs is not read", FN); return
    if not unknown and not any(i.op == "load" and i.ty.kind == "int" and i.ty.bits == 8 and not isdir(a, i) for i in a.insts):
        rep.bad(P, "cpu-last", FN, "a number is parsed from the list without looking for its last separator", FN); return
    if a.cache is None or len(a.reads) != 1: rep.und(P, "cpu", FN, "one cache and one read expected"); return
    try: a_run(a)
    except Cyclic as e: rep.und(P, "cpu", FN, str(e))

def wrapper(rep):
    m = cc.module("src/rseq.c"); fn = "rseq_get_max_nr_cpus"; v = V(rep, fn)
    if fn not in m.funcs: rep.bad(P, "cpu-public", fn, "missing", fn); return
    try:
        s = Seg(m, fn, None, m.di_structs(), loads=True)
        for q in s.run(lambda i: False):
            if q.end.op != "ret": continue
            cl = [e for e in q.effs if e.op == "call" and e.name == FN]
            s.g.tmemo = q.env; r = s.g.val(q.end.args[0])
            v.put(len(cl) >= 1 and any(r is q.env[e.res] for e in cl), P, "cpu-public", "the public query returns the count", "returns %s" % s.c.s(r)[:60], s.g.site(q.end))
    except Cyclic as e: rep.und(P, "cpu-public", fn, str(e))

class Sub:
    """hints: values of the opaque atoms at the start of a segment, consistent with what the earlier events allow"""
    def __init__(self, a): self.a = a

def lin(c, n):
    """single atom + const -> (atom, const)"""
    if n.b is not None: return None
    p = n.leaf; at = [m for m in p.d if m]
    if len(at) != 1 or len(at[0]) != 1 or p.d[at[0]] != 1: return None
    return at[0][0], p.d.get((), 0)

def under(c, at):
    """sv atom behind width changes"""
    k = c.alist[at]
    while k[0] in ("sext", "zext", "trunc"):
        s = c.single(k[2])
        if s is None: return None
        at, k = s, c.alist[s]
    return at if k[0] == "sv" else None

def a_run(a):
    c, g, v, m = a.c, a.g, a.v, a.m
    rd = a.reads[0]; site_rd = g.site(rd)
    p0, n0 = a.arg(None, rd, 1), a.arg(None, rd, 2)
    # the buffer: from the segments that reach the read first
    def cut0(i): return id(i) in a.kinds
    # bytes inspected: 8-bit loads from a stack buffer
    buf = None
    for i in a.insts:
        if i.op == "alloca" and "x i8]" in str(getattr(i, "extra", "")) + str(i.ty) + str(i.attrs): buf = buf or i
    al = [x for x in c.deep_atoms(p0) if c.alist[x][0] == "alloca"]
    names = {c.alist[x][1] for x in al}
    if not names:
        for b in g.cfg.rpo:
            for i in g.f.bmap[b].insts:
                if i.op == "phi":
                    pass
    byte = {}
    for i in a.insts:
        if i.op == "load" and i.ty.kind == "int" and i.ty.bits == 8:
            ad = a.arg(None, i, 0)
            if any(c.alist[x][0] == "alloca" for x in c.deep_atoms(ad)): a.kinds[id(i)] = "byte"; byte[id(i)] = ad
            elif ad.b is None and lin(c, ad) and c.alist[lin(c, ad)[0]][0] == "sv" and not isdir(a, i): a.kinds[id(i)] = "byte"; byte[id(i)] = ad
    segs = a.s.run(lambda i: id(i) in a.kinds)
    # --- buffer and its size from the first read
    first = [q for q in segs if q.end is rd and q.start is not rd]
    B = None; SIZE = None
    for q in first:
        pp, nn = a.arg(q, rd, 1), a.arg(q, rd, 2)
        b = a.base(pp)
        if b is None or nn.b is not None or set(nn.leaf.d) - {()}: a.rep.und(P, "cpu-buffer", FN, "buffer of the first read not recognised: %s" % c.s(pp)[:60]); return
        sz = nn.leaf.d.get((), 0); off = b[1].d.get((), 0) if set(b[1].d) <= {()} else None
        full = alloca_size(a, c.alist[b[0]][1])
        if off is None or full is None: a.rep.und(P, "cpu-buffer", FN, "buffer extent not recognised"); return
        v.put(off + sz <= full, P, "cpu-buffer", "the first read fits the buffer", "the first read may write %d bytes at offset %d of a %d-byte buffer" % (sz, off, full), site_rd)
        if B is not None and (B, SIZE) != (b[0], sz): a.rep.und(P, "cpu-buffer", FN, "several buffers"); return
        B, SIZE, FULL = b[0], sz, full
        if off: v.put(False, P, "cpu-buffer", "", "the list is not read to the start of the buffer", site_rd); return
    if B is None: a.rep.und(P, "cpu-buffer", FN, "no first read"); return
    Bn = c.leaf(a.atom(B, 64)); k64 = lambda x: g.k(x)
    # --- valuation of opaque atoms
    def baddr(env): return env.atom(B, 64)
    H = {}
    svh = {}
    lo = [1]          # lowest index looked at (inductive: checked below, else 0)
    def T(env):
        if not hasattr(env, "T"): env.T = env.r.choice((0, 0, 1, 2, 7, SIZE - 1, SIZE - 1, SIZE - 2, env.r.randrange(SIZE)))
        return env.T
    def Rv(env):
        if not hasattr(env, "R"):
            n = SIZE - T(env); env.R = env.r.choice((0, 0, n, n, 1, n - 1, max(0, n - 2), env.r.randrange(n + 1), -1, -1, -1)) if n else env.r.choice((0, -1))
        return env.R
    def I(env):
        if not hasattr(env, "I"): env.I = max(lo[0], env.r.choice((0, 0, 1, 1, 2, 3, FULL - 1, FULL - 2, env.r.randrange(FULL))))
        return env.I
    def bind(node, val, isptr):
        l = lin(c, node)
        if l is None: return False
        u = under(c, l[0])
        if u is None: return False
        svh[c.alist[u][1]] = lambda env, k=l[1]: val(env) - k
        return True
    pb = c.apply(("subB",), lambda p: c.padd(p, Bn.leaf, -1), p0)
    ok = bind(pb, T, False) if a.base(p0) else bind(p0, lambda e: baddr(e) + T(e), True)
    if n0.b is None and not (set(n0.leaf.d) <= {()}):
        l = lin(c, n0); u = under(c, l[0]) if l else None
        if u is not None: svh.setdefault(c.alist[u][1], lambda e, k=l[1]: SIZE - T(e) - k)
        # else: expressed with the position's atom
        neg = c.apply(("neg",), lambda p: c.pneg(p), n0)
        l = lin(c, neg); u = under(c, l[0]) if l else None
        if u is not None and c.alist[u][1] not in svh: svh[c.alist[u][1]] = lambda e, k=l[1]: T(e) - SIZE - k
    for i, ad in byte.items():
        x = a.base(ad)
        if not (bind(c.leaf(x[1]), I, False) if x else bind(ad, lambda e: baddr(e) + I(e), True)): a.rep.und(P, "cpu-byte", FN, "address of an inspected byte not recognised: %s" % c.s(ad)[:80]); return
    svh[rd.res] = Rv
    opens = [i for i in a.insts if a.kind(i) in ("open", "opendir")]
    nums = [i for i in a.insts if a.kind(i) == "num"]
    cur = {"start": None}
    def openv(i):
        isd = a.kind(i) == "opendir"
        def f(env):
            if cur["start"] is not i:
                if not isd and not hasattr(env, "fd"): env.fd = env.r.choice((0, 5))
                return 0x5550 if isd else env.fd
            return env.r.choice((0, 0x5550)) if isd else env.r.choice((-1, 0, 3, 5))
        return f
    for i in opens: svh[i.res] = openv(i)
    for i in a.insts:
        if i.res is None: continue
        k = a.kind(i)
        if k == "byte": svh[i.res] = lambda e: e.r.choice((44, 45, 48, 57, 10, 0, 255))
        elif k == "readdir": svh[i.res] = lambda e: e.r.choice((0, 0x77770000))
        elif k == "num": svh[i.res] = lambda e: e.r.choice((0, 1, 5, INTMAX - 1, INTMAX, INTMAX + 1, (1 << 32) + 3, (1 << 63) + 5, (1 << 64) - 1))
    def svval(env, k, w):
        h = svh.get(k[1])
        if h is not None: return h(env) & ((1 << w) - 1)
        return env.r.choice((0, 1, 2, 7, -1, INTMAX, INTMAX - 1, INTMAX + 1, env.num(w))) & ((1 << w) - 1)
    def sysc(env):
        if not hasattr(env, "SC"): env.SC = env.r.choice((-1, 0, 1, 2, 3, 7, 8, 9))
        return env.SC
    H[("sv",)] = svval
    H[("fcallx", "sysconf")] = sysc
    H["tag"] = "smp"
    d = decide.Decider(c, 5, H, 1200)
    def feas(X): return None if X is c.F else d.feasible(X)
    def imp(X, Y):
        Z = c.AND(X, c.NOT(Y))
        return True if Z is c.F or feas(Z) is None else False
    def eq(n, k): return c.apply(("eqc", k), lambda p: c.beq(p, c.const(p.w, k)), n)
    def eqn(x, y): return g.icmp("eq", x, y)
    for q in segs:
        if a.kind(q.end) != "byte" or not lo[0]: continue
        cur["start"] = q.start
        if not imp(q.cond, g.icmp("ugt", g.sub(a.arg(q, q.end, 0), Bn), k64(0))): lo[0] = 0
    # --- live segments
    live = []
    for q in segs:
        cur["start"] = q.start
        if q.cond is c.T or feas(q.cond) is not None: live.append(q)
    a.rep.notes.append("get_possible_cpus_array_len: %d segments, %d possible" % (len(segs), len(live)))
    S_of = {id(i): a.arg(None, i, 0) for i in nums}
    isS = c.leaf(c.var(64, ("fcall", "sysconf", (c.const(32, NPROC_CONF),))))
    usesS = False
    def fallback(q, why, site):
        """segment that gives up on the list: must be allowed"""
        v.put(imp(q.cond, why), P, "cpu-list", "the list is given up only when unreadable, empty, cut or malformed", "gives up on a readable list", site)
    posat = {x for x in c.deep_atoms(p0) if c.alist[x][0] == "sv"} if not a.base(p0) else set()
    def inbuf(e):
        """store to the list's buffer"""
        at = set(c.deep_atoms(e.args[1]))
        return e.inst.args[0].ty.kind == "int" and e.inst.args[0].ty.bits == 8 and (B in at or bool(at & posat))
    def store_ok(q): return [e for e in q.effs if e.op == "store" and e.args[1].b is None and c.single(e.args[1].leaf) is not None and c.alist[c.single(e.args[1].leaf)] == ("global", a.cache)]
    def result(q, want, C, rule, text, site):
        """want (32 bits) >= 1: remembered and returned; else 0 returned, nothing remembered"""
        g.tmemo = q.env; rv = g.val(q.end.args[0]); st = store_ok(q)
        pos = g.icmp("sgt", want, g.k(0, 32))
        if st:
            e = st[-1]
            v.put(imp(c.AND(C, e.cond), pos), P, "cpu-cache", "only a positive count is remembered", "remembers a count that is not positive", g.site(e.inst))
            X = c.AND(C, e.cond)
            v.put(d.diff(e.args[0], want, X) is None, P, rule, text, "remembers %s instead of %s" % (c.s(e.args[0])[:80], c.s(want)[:80]), g.site(e.inst))
            v.put(d.diff(rv, e.args[0], X) is None, P, "cpu-return", "the remembered count is returned", "returns %s" % c.s(rv)[:60], site)
        else:
            v.put(imp(C, c.NOT(pos)), P, rule, text, "a known count of CPUs is dropped", site)
            v.put(iscache(rv) or d.diff(rv, g.k(0, 32), C) is None, P, "cpu-return", "0 when nothing is known", "returns %s" % c.s(rv)[:60], site)
    def iscache(n):
        if n.b is not None: return False
        x = c.single(n.leaf)
        return x is not None and c.alist[x][0] == "load" and c.single(c.alist[x][1]) is not None and c.alist[c.single(c.alist[x][1])] == ("global", a.cache)
    def err(q):
        l = [q.env[e.res] for e in q.effs if e.op == "load" and e.args[0].b is None and c.single(e.args[0].leaf) is not None and c.alist[c.single(e.args[0].leaf)][:2] == ("fcall", "__errno_location")]
        return l[0] if l else None
    r = a.sv(rd); rneg = g.icmp("slt", r, k64(0))
    pos_ = c.apply(("subB",), lambda p: c.padd(p, Bn.leaf, -1), p0)      # bytes before this read
    length = g.add(pos_, r) if hasattr(g, "add") else c.apply(("addr",), lambda x, y: c.padd(x, y), pos_, r)
    scans = scan_info(a, segs, live, cur, feas)
    for M in scans.values():         # starts at -1 and only grows (both checked below)
        svh[M.res] = lambda e: e.r.choice((-1, -1, 0, 1, 2, 7, INTMAX - 1, INTMAX, INTMAX + 1, LONGMAX - 1))
    justified = {}
    # directory results per segment that ends a scan
    def clip(M):
        bad = c.OR(g.icmp("slt", M, g.k(0, 64)), c.NOT(g.icmp("slt", M, g.k(INTMAX))))
        return c.ite(bad, k64(0), c.apply(("plus1",), lambda p: c.padd(p, c.const(p.w, 1)), M))
    for q in live:
        cur["start"] = q.start
        ks, ke = a.kind(q.start), a.kind(q.end); C = q.cond; site = g.site(q.end) if q.end.op != "unreachable" else g.site(q.effs[-1].inst) if q.effs else FN
        if ke == "dead":
            over = q.effs and "trap" in (q.effs[-1].name or "")
            v.put(False, P, "cpu-overflow" if over else "cpu-abort", "", "a computation overflows int" if over else "the process is ended while counting CPUs", site); continue
        # every access to the buffer lies inside it
        for e in q.effs:
            if e.op == "store":
                if inbuf(e):
                    off = g.sub(e.args[1], Bn)
                    v.put(imp(c.AND(C, e.cond), g.icmp("ult", off, k64(FULL))), P, "cpu-bounds", "stores stay inside the buffer", "a store at %s can miss the %d-byte buffer" % (c.s(e.args[1])[:80], FULL), g.site(e.inst))
        if ks == "entry":
            cv = [q.env[e.res] for e in q.effs if e.op == "load" and e.args[0].b is None and c.single(e.args[0].leaf) is not None and c.alist[c.single(e.args[0].leaf)] == ("global", a.cache)]
            z = eq(cv[0], 0) if cv else c.F
            if ke == "ret":
                g.tmemo = q.env; rv = g.val(q.end.args[0])
                v.put(imp(C, c.NOT(z)), P, "cpu-cached", "an unknown count is always looked up", "returns without looking the count up although none is remembered", site)
                v.put(iscache(rv), P, "cpu-return", "the remembered count is returned", "returns %s" % c.s(rv)[:60], site)
            else: v.put(imp(C, z) if cv else None, P, "cpu-cached", "a remembered count is not looked up again", "looks the count up again", site)
            if ke == "open": openargs(a, q, site)
            elif ke != "ret": v.put(False if ke in ("opendir", "readdir") else None, P, "cpu-list", "", "the possible-CPU list is not looked at first", site)
        elif ks == "open":
            f = g.icmp("slt", a.sv(q.start), g.k(0, 32))
            if ke == "read":
                v.put(imp(C, c.NOT(f)), P, "cpu-open", "reads only an open file", "reads although the file could not be opened", site)
            elif ke == "opendir": fallback(q, f, site)
            elif ke == "ret": v.put(False, P, "cpu-fallback", "", "gives up without trying the directories", site)
            else: v.put(None, P, "cpu-open", "", "unexpected step after open", site)
        elif ks == "read":
            en = err(q); hard = c.AND(rneg, c.NOT(eq(en, EINTR))) if en is not None else c.F
            # length so far fits what remained
            if ke == "read":
                pp, nn = a.arg(q, rd, 1), a.arg(q, rd, 2)
                end1 = g.icmp("ule", nn, k64(SIZE)); endsum = eqn(g.add(pp, nn), g.add(Bn, k64(SIZE)))
                v.put(imp(C, c.AND(end1, endsum)), P, "cpu-bounds", "each read fits the rest of the buffer", "a later read may write outside the buffer: %s bytes at %s" % (c.s(nn)[:60], c.s(pp)[:60]), site)
                adv = c.ite(rneg, p0, g.add(p0, r))
                v.put(d.diff(pp, adv, C) is None, P, "cpu-append", "each read appends to what was read", "the next read goes to %s" % c.s(pp)[:60], site)
                v.put(imp(c.AND(C, rneg), c.NOT(hard)) if en is not None else imp(C, c.NOT(rneg)), P, "cpu-error", "only an interrupted read is repeated", "a failing read is repeated for ever", site)
                v.put(imp(C, c.NOT(eq(r, 0))), P, "cpu-eof", "stops at end of file", "reads on after the end of the file", site)
            elif ke in ("byte", "num"):
                v.put(imp(C, eq(r, 0)), P, "cpu-eof", "parses only the complete list", "parses the list before the end of the file was seen", site)
                v.put(imp(C, g.icmp("ult", length, k64(SIZE))), P, "cpu-truncated", "a list that may be cut is not trusted", "a list that fills the buffer is parsed although its last number may be cut", site)
                v.put(imp(C, g.icmp("ugt", length, k64(0))), P, "cpu-empty", "an empty list is not parsed", "parses an empty list", site)
                nul = [e for e in q.effs if e.op == "store" and inbuf(e) and d.diff(e.args[0], g.k(0, 8), c.T) is None]
                good = any(d.diff(e.args[1], g.add(Bn, length), C) is None for e in nul)
                v.put(True if good else None if not nul and any(i.op == "call" and "memset" in (g.callee(i) or "") for i in a.insts) else False, P, "cpu-nul", "the list ends with NUL right after the bytes read", "the bytes read are not terminated before parsing", site)
                if ke == "byte": firstbyte(a, q, byte, d, C, length, Bn, FULL, imp, site)
                else:
                    S = a.arg(q, q.end, 0)
                    v.put(imp(C, eqn(length, k64(1))) and d.diff(S, Bn, C) is None, P, "cpu-last", "a one-character list is the number", "parses %s without looking for a separator" % c.s(S)[:60], site)
                    numargs(a, q, site)
            elif ke == "opendir": fallback(q, c.OR(hard, c.AND(c.NOT(rneg), c.OR(eq(length, 0), c.NOT(g.icmp("ult", length, k64(SIZE)))))), site)
            elif ke == "ret": v.put(False, P, "cpu-fallback", "", "gives up without trying the directories", site)
            else: v.put(None, P, "cpu-read", "", "unexpected step after read", site)
        elif ks == "byte":
            ad = byte[id(q.start)]; b = a.sv(q.start); sep = c.OR(eq(b, ord(",")), eq(b, ord("-")))
            one = k64(1)
            if ke == "byte":
                ad2 = a.arg(q, q.end, 0)
                v.put(imp(C, c.NOT(sep)), P, "cpu-last", "the search stops at the last separator", "searches past a separator", site)
                v.put(d.diff(ad2, g.sub(ad, one), C) is None, P, "cpu-last", "every byte is looked at, from the end", "looks at %s after %s" % (c.s(ad2)[:60], c.s(ad)[:60]), site)
                v.put(imp(C, g.icmp("ult", g.sub(ad2, Bn), k64(FULL))), P, "cpu-bounds", "bytes looked at are inside the buffer", "may look before the buffer", site)
            elif ke == "num":
                S = a.arg(q, q.end, 0)
                Y = c.AND(C, sep)
                if Y is not c.F and feas(Y) is not None: v.put(d.diff(S, g.add(ad, one), Y) is None, P, "cpu-last", "the number after the last separator is parsed", "parses %s after the separator at %s" % (c.s(S)[:60], c.s(ad)[:60]), site)
                Y = c.AND(C, c.NOT(sep))
                if Y is not c.F and feas(Y) is not None:
                    v.put(d.diff(S, Bn, Y) is None, P, "cpu-last", "a list without separator is parsed from its start", "parses %s when there is no separator" % c.s(S)[:60], site)
                    v.put(imp(Y, g.icmp("ule", g.sub(ad, Bn), one)), P, "cpu-last", "the whole list is searched", "gives up the search for a separator early", site)
                numargs(a, q, site)
            elif ke == "opendir": v.put(False, P, "cpu-list", "", "gives up on a readable list", site)
            elif ke == "ret": v.put(False, P, "cpu-fallback", "", "gives up without trying the directories", site)
            else: v.put(None, P, "cpu-byte", "", "unexpected step", site)
        elif ks == "num":
            S = S_of[id(q.start)]; x = a.sv(q.start)
            ep = a.arg(None, q.start, 1)
            el = [q.env[e.res] for e in q.effs if e.op == "load" and e.args[0] is ep]
            moved = c.NOT(eqn(el[0], S)) if el else None
            small = g.icmp("ult", x, k64(INTMAX))
            if ke == "ret":
                g.tmemo = q.env
                v.put(imp(C, small), P, "cpu-range", "ids that do not fit are not used", "a number too large for a CPU id is used", site)
                if moved is None: v.put(False, P, "cpu-parsed", "", "uses a number without checking that one was there", site)
                else: v.put(imp(C, moved), P, "cpu-parsed", "a number was there", "uses the result although no number was there", site)
                w = c.apply(("trunc", 32), lambda p: g._trunc(p, 32), c.apply(("plus1",), lambda p: c.padd(p, c.const(p.w, 1)), x))
                result(q, w, C, "cpu-count", "one more than the last id of the list", site)
            elif ke == "opendir":
                why = c.OR(c.NOT(small), c.NOT(moved)) if moved is not None else c.NOT(small)
                fallback(q, why, site)
            else: v.put(None, P, "cpu-count", "", "unexpected step", site)
        elif ks in ("opendir", "readdir"):
            h = a.sv(q.start); null = eq(h, 0)
            if ks == "opendir" and ke == "readdir":
                v.put(imp(C, c.NOT(null)), P, "cpu-opendir", "reads only an open directory", "reads a directory that could not be opened", site)
                M = scans.get(id(q.end))
                if M:
                    g.tmemo = q.env
                    z = q.env.get(M.res); v.put(z is not None and d.diff(z, g.k(-1, g.width(M.ty)), C) is None, P, "cpu-scan", "starts from no CPU", "the scan starts from id %s" % (c.s(z)[:40] if z is not None else "?"), site)
                da = a.arg(q, q.end, 0)
                v.put(da is h, P, "cpu-opendir", "reads the directory it opened", "reads another directory", site)
                continue
            if ks == "readdir" and ke == "readdir" and q.end is q.start:
                update(a, q, scans.get(id(q.end)), d, imp, eq, C, site); v.put(imp(C, c.NOT(null)), P, "cpu-scan-all", "reads on until the end", "reads on after the end of the directory", site); continue
            # end of a scan
            v.put(imp(C, null), P, "cpu-scan-all", "every entry is looked at", "stops before the end of the directory", site)
            if ks == "readdir":
                M = scans.get(id(q.start))
                if M is None: v.put(False, P, "cpu-scan", "", "the directory scan keeps no highest id", site); continue
                Mn = a.sv(M); Mn = Mn if g.width(M.ty) == 64 else c.apply(("sx64",), lambda p: g._extp(p, 64, True), Mn)
                Dn = clip(Mn)
            else: Dn = k64(0)
            Snode = isS
            big = g.icmp("sgt", Snode, Dn); mx = c.ite(big, Snode, Dn); mx32 = c.apply(("trunc", 32), lambda p: g._trunc(p, 32), mx)
            if ke == "opendir":
                # another scan is only started when its result is the larger
                justified.setdefault(id(q.end), []).append(imp(C, c.NOT(big)))
            elif ke == "ret":
                scan = scan_of(a, q.start)
                C2 = C
                if scan is not None and id(scan) in twice(a, live) and all(imp_entry(a, x, cur, imp, clip, isS, scans, k64, eq) for x in twice(a, live)[id(scan)]): C2 = c.AND(C, c.NOT(big))
                result(q, mx32, C2, "cpu-fallback", "the larger of directory count and configured processors", site)
            else: v.put(None, P, "cpu-fallback", "", "unexpected step", site)
            if ke == "opendir": pass
        if ke == "opendir": dirargs(a, q, site)
    handles(a, live, cur, imp, eq)

def twice(a, live):
    """scans entered from the end of another scan: opendir id -> those segments (only if all entries are such)"""
    out = {}; other = set()
    for q in live:
        if a.kind(q.end) == "opendir":
            if a.kind(q.start) in ("opendir", "readdir"): out.setdefault(id(q.end), []).append(q)
            else: other.add(id(q.end))
    return {k: x for k, x in out.items() if k not in other}

def imp_entry(a, q, cur, imp, clip, isS, scans, k64, eq):
    c, g = a.c, a.g; old = cur["start"]; cur["start"] = q.start
    if a.kind(q.start) == "readdir":
        M = scans.get(id(q.start))
        if M is None: cur["start"] = old; return False
        Mn = a.sv(M); Mn = Mn if g.width(M.ty) == 64 else c.apply(("sx64",), lambda p: g._extp(p, 64, True), Mn)
        Dn = clip(Mn)
    else: Dn = k64(0)
    r = imp(q.cond, c.NOT(g.icmp("sgt", isS, Dn))); cur["start"] = old
    return r

def scan_of(a, i):
    """the opendir a readdir (or the opendir itself) belongs to"""
    if a.kind(i) == "opendir": return i
    n = a.arg(None, i, 0)
    if n.b is None:
        x = a.c.single(n.leaf)
        if x is not None and a.c.alist[x][0] == "sv":
            d = a.g.defs.get(a.c.alist[x][1])
            if d is not None and a.kind(d) == "opendir": return d
    return None

def isdir(a, i):
    """byte load of a directory entry or behind a number (not of the list)"""
    n = a.arg(None, i, 0); l = lin(a.c, n)
    if l is None or a.c.alist[l[0]][0] != "sv": return False
    d = a.g.defs.get(a.c.alist[l[0]][1])
    return d is not None and (d.op == "call" or d.op == "load")

def alloca_size(a, name):
    for i in a.insts:
        if i.op == "alloca" and i.res == name:
            return a.m.sizeof(i.extra) if hasattr(a.m, "sizeof") else None
    return None

def openargs(a, q, site):
    i = q.end; c = a.c; nm = a.g.callee(i); k = 1 if nm == "openat" else 0
    p = a.arg(q, i, k); x = c.single(p.leaf) if p.b is None else None
    s = gstr(a.m, c.alist[x][1]) if x is not None and c.alist[x][0] == "global" else None
    a.v.put(None if s is None else s == "/sys/devices/system/cpu/possible", P, "cpu-path", "the possible-CPU list", "reads %s" % s, site)
    fl = a.arg(q, i, k + 1)
    if fl.b is None and set(fl.leaf.d) <= {()}: a.v.put(fl.leaf.d.get((), 0) & (3 | 0o1000 | 0o100) == 0, P, "cpu-flags", "opened for reading only", "opened with flags %#o" % fl.leaf.d.get((), 0), site)

def dirargs(a, q, site):
    i = q.end; c = a.c; p = a.arg(q, i, 0); x = c.single(p.leaf) if p.b is None else None
    s = gstr(a.m, c.alist[x][1]) if x is not None and c.alist[x][0] == "global" else None
    a.v.put(None if s is None else s.rstrip("/") == "/sys/devices/system/cpu", P, "cpu-dirpath", "the CPU directories", "looks at %s" % s, site)

def numargs(a, q, site):
    b = a.arg(q, q.end, 2)
    a.v.put(b.b is None and set(b.leaf.d) <= {()} and b.leaf.d.get((), 0) == 10, P, "cpu-base", "numbers are decimal", "numbers are parsed in base %s" % a.c.s(b)[:20], site)

def firstbyte(a, q, byte, d, C, length, Bn, FULL, imp, site):
    c, g, v = a.c, a.g, a.v
    ad = a.arg(q, q.end, 0)
    off = g.sub(g.sub(ad, Bn), length)
    ok = any(d.diff(off, g.k(x), C) is None for x in (-1, 0, -2))
    v.put(ok, P, "cpu-last", "the search starts at the end of the list", "the search for the last separator starts at %s" % c.s(ad)[:80], site)
    v.put(imp(C, g.icmp("ult", g.sub(ad, Bn), g.k(FULL))), P, "cpu-bounds", "bytes looked at are inside the buffer", "may look outside the buffer at %s" % c.s(ad)[:80], site)

def scan_info(a, segs, live, cur, feas):
    """readdir -> the loop variable that takes a directory's number"""
    out = {}; g, c = a.g, a.c
    for q in live:
        if a.kind(q.start) == "readdir" and q.end is q.start:
            nums = {e.res: q.env[e.res] for e in q.effs if e.op == "call" and e.name in STRTOL}
            for b in g.cfg.rpo:
                for i in g.f.bmap[b].insts:
                    if i.op == "phi" and i.res in q.env and q.env[i.res].b is None or i.op == "phi" and i.res in q.env:
                        n = q.env[i.res]
                        for r in nums.values():
                            if set(c.deep_atoms(n)) & set(c.deep_atoms(r)) and inloop(a, i, q.start) and n is not a.sv(i): out.setdefault(id(q.end), i) if header(a, i, q.start) else None
    return out

def header(a, i, rd):
    """phi in a block that dominates the readdir (value at the readdir)"""
    return a.g.cfg.dom(i.block.name, rd.block.name)

def inloop(a, i, rd): return True

def update(a, q, M, d, imp, eq, C, site):
    c, g, v = a.c, a.g, a.v
    if M is None: return
    old = a.sv(M); new = q.env[M.res]; ent = a.sv(q.start); w = g.width(M.ty)
    name = g.add(ent, g.k(D_NAME)); L = []
    X = None
    for k, e in enumerate(q.effs):
        if e.op == "load" and e.args[0] is g.add(ent, g.k(D_TYPE)): L.append(eq(q.env[e.res], 4))
        elif e.op == "call" and e.name in ("strncmp", "memcmp", "bcmp") and any(x is name for x in e.args[:2]):
            o = e.args[1] if e.args[0] is name else e.args[0]; x = c.single(o.leaf) if o.b is None else None
            s = gstr(a.m, c.alist[x][1]) if x is not None and c.alist[x][0] == "global" else None
            n = e.args[2].leaf.d.get((), 0) if e.args[2].b is None else None
            if s == "cpu" and n == 3: L.append(eq(q.env[e.res], 0))
            else: v.put(False if s is not None and n is not None and (s[:n] != "cpu") else None, P, "cpu-dirname", "", "names are compared with %r over %s characters" % (s, n), g.site(e.inst))
        elif e.op == "call" and e.name in STRTOL:
            X = q.env[e.res]; start = g.add(name, g.k(3))
            v.put(e.args[0] is start and e.args[2].b is None and e.args[2].leaf.d.get((), 0) == 10, P, "cpu-dirname", "the number after the prefix, decimal", "parses %s" % c.s(e.args[0])[:60], g.site(e.inst))
            ends = [x for x in q.effs[k + 1:] if x.op == "load" and x.args[0] is e.args[1]]
            if ends:
                ev = q.env[ends[0].res]; L.append(c.NOT(g.icmp("eq", ev, start)))
                z = [x for x in q.effs[k + 1:] if x.op == "load" and any(x.args[0] is q.env[y.res] for y in ends)]
                if z: L.append(eq(q.env[z[0].res], 0))
                for y in ends[1:]: C = c.AND(C, g.icmp("eq", q.env[y.res], ev))
    full = len(L) == 4 and X is not None
    if not full:
        # some test was not made: the entry must have been refused by one that was
        if d.diff(new, old, C) is not None: v.put(False if len(L) >= 1 or X is not None else None, P, "cpu-scan-dirs", "", "counts an entry without checking that it is a directory named cpu<number>", site); return
        if X is not None:
            Xw = X if w == 64 else c.apply(("trunc", 32), lambda p: g._trunc(p, 32), X)
            L += [g.icmp("sgt", Xw, old), g.icmp("slt", X, g.k(INTMAX))]
        v.put(imp(C, c.NOT(c.AND(*L))) if L else False, P, "cpu-scan-max", "every CPU directory counts", "a CPU directory with a higher id is passed over", site)
        return
    small = g.icmp("slt", X, g.k(INTMAX)); isd = c.AND(*L)
    Xw = X if w == 64 else c.apply(("trunc", 32), lambda p: g._trunc(p, 32), X)
    v.put(d.diff(new, old, c.AND(C, c.NOT(isd))) is None, P, "cpu-scan-dirs", "only directories named cpu<number> count", "counts an entry that is not a directory named cpu<number>", site)
    want = c.ite(g.icmp("sgt", Xw, old), Xw, old)
    v.put(d.diff(new, want, c.AND(C, isd, small)) is None, P, "cpu-scan-max", "the highest id is kept", "keeps %s" % c.s(new)[:80], site)
    Y = c.AND(C, isd, c.NOT(small))
    v.put(imp(Y, c.OR(g.icmp("eq", new, old), g.icmp("eq", new, Xw))), P, "cpu-scan-max", "the highest id is kept", "keeps %s" % c.s(new)[:80], site)

def handles(a, live, cur, imp, eq):
    """each file and directory opened is closed once on every path"""
    c, g, v = a.c, a.g, a.v
    by = {}
    for q in live: by.setdefault(id(q.start) if q.start is not None else None, []).append(q)
    todo = [(None, frozenset())]; seen = set()
    while todo:
        st, open_ = todo.pop()
        if (st, open_) in seen: continue
        seen.add((st, open_))
        for q in by.get(st, []):
            cur["start"] = q.start
            o = set(open_); k = a.kind(q.start)
            if k in ("open", "opendir"):
                h = a.sv(q.start); failed = g.icmp("slt", h, g.k(0, 32)) if k == "open" else eq(h, 0)
                if not imp(q.cond, failed): o.add(q.start.res)
            names = {("sv", r): r for r in o}
            for e in q.effs:
                if e.op == "call" and e.name in ("close", "closedir"):
                    n = e.args[0]; x = c.single(n.leaf) if n.b is None else None
                    r = c.alist[x][1] if x is not None and c.alist[x][0] == "sv" else None
                    if r in o: o.discard(r); v.put(True, P, "cpu-close", "handles are closed once", "", "")
                    elif r is not None and a.kind(g.defs.get(r)) in ("open", "opendir"): v.put(False, P, "cpu-close", "", "a handle is closed again, or although it was not opened", g.site(e.inst))
                    elif n.b is None and set(n.leaf.d) <= {()}: pass
                    else: v.put(None, P, "cpu-close", "", "handle %s" % c.s(n)[:40], g.site(e.inst))
                elif e.op == "call" and e.name in ("fclose", "fdopendir"): v.put(None, P, "cpu-close", "", e.name, g.site(e.inst))
            ke = a.kind(q.end); site = g.site(q.end)
            if ke == "ret":
                if o: v.put(False, P, "cpu-close", "", "returns with %d handle(s) left open (%s)" % (len(o), ", ".join(sorted(g.callee(g.defs[x]) + " at " + g.site(g.defs[x]) for x in o))[:200]), site)
            elif ke in ("read", "readdir"):
                n = a.arg(q, q.end, 0); x = c.single(n.leaf) if n.b is None else None
                r = c.alist[x][1] if x is not None and c.alist[x][0] == "sv" else None
                if r is not None and a.kind(g.defs.get(r)) in ("open", "opendir") and r not in o: v.put(False, P, "cpu-close", "", "uses a handle that is closed", site)
            if ke not in ("ret", "dead"):
                if ke in ("open", "opendir") and q.end.res in o: v.put(False, P, "cpu-close", "", "opens again before closing", site)
                todo.append((id(q.end), frozenset(o)))

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(100000)
    from report import Report
    r = Report(); run(r)
    for k, v in sorted(r.obl.items()):
        if v[1] != "holds" or "-v" in sys.argv: print(v[1], k, v[2][:300])
    print(len(r.obl), r.notes)
