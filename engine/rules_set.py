"""Pool sets: C25, C16 (content requests passed on), C21 (teardown), from the segments between accesses to the entries."""
import mp, cc, vg, decide
from seg import Seg, Cyclic
ENOMEM, EBUSY = 12, 16
MINE, NR = 3, 64
SETOPS = {"rseq_mempool_set_percpu_malloc": ("rseq_mempool_percpu_malloc", None, 1), "rseq_mempool_set_percpu_zmalloc": ("rseq_mempool_percpu_zmalloc", None, 1),
    "rseq_mempool_set_percpu_malloc_init": ("rseq_mempool_percpu_malloc_init", 1, 2)}

class S:
    """one function seen as segments between loads of set entries"""
    def __init__(self, m, fname):
        self.m, self.name = m, fname
        self.seg = Seg(m.mod, fname, m.imm, m.st); self.g = self.seg.g; self.c = self.g.c
        H = m.hints(); H[("sv",)] = lambda env, k, w: env.r.choice((3, 4, 5, 62, 63, env.r.randrange(3, 64))) if w == 32 else env.r.choice((0, env.fresh_ptr())) if w == 64 else env.num(w)
        H[("arg", 0)] = lambda env: 0x10000
        self.d = decide.Decider(self.c, 1, H, 600)
        self.ent = m.o("rseq_mempool_set", "entries")
        self.a0 = self.g.val(vg_arg(self.g, 0))
    def k(self, v, w=64): return self.g.k(v, w)
    def add(self, *x):
        r = x[0]
        for y in x[1:]: r = self.g.add(r, y)
        return r
    def is_entry(self, i):
        if i.op != "load": return False
        a = self.g.val(i.args[0])
        if any(i2 for i2 in ()): return False
        # the address is based on the set argument, or walks from it
        return self._based(i.args[0], 0)
    def _based(self, v, depth, seen=None):
        seen = seen if seen is not None else set()
        if v.kind != "local" or v.name in seen: return False
        seen.add(v.name)
        if v.name in self.g.pidx: return self.g.pidx[v.name] == 0
        d = self.g.defs[v.name]
        if d.op in ("getelementptr", "bitcast", "freeze"): return self._based(d.args[0], 0, seen)
        if d.op == "phi": return any(self._based(x, 0, seen) for x, p in d.extra)
        if d.op == "select": return any(self._based(x, 0, seen) for x in d.args[1:])
        return False
    def run(self):
        self.g.tmemo = {}
        return self.seg.run(self.is_entry)
    def value(self, env, v): self.g.tmemo = env; return self.g.val(v)
    def idx(self, addr):
        """8 * index of the entry at addr"""
        return self.g.sub(addr, self.add(self.a0, self.k(self.ent)))
    def implies(self, C, H):
        """True | False | None"""
        X = self.c.AND(C, self.c.NOT(H))
        if X is self.c.F: return True
        if self.d.feasible(X) is not None:
            bad = [b for b in self.c.support(X) if self.c.blist[b][0] not in ("eq", "ult", "slt", "bit0")]
            return None if bad else False
        return True if all(self.c.blist[b][0] in ("eq", "ult", "slt", "bit0") for b in self.c.support(X)) else None
    def same(self, A, B, G):
        if A is B: return True
        d = self.d.diff(A, B, G)
        return d is None
    def errno(self, i):
        """store to errno -> value or None"""
        if i.op != "store": return None
        a = i.args[1]
        if a.b is None and len(a.leaf.d) == 1:
            (mo, co), = a.leaf.d.items()
            if len(mo) == 1 and self.c.alist[mo[0]][:2] == ("fcall", "__errno_location"): return i.args[0]
        return None
    def errno_loads(self, s):
        out = []
        for b in s.blocks:
            for i in self.g.f.bmap[b].insts:
                if i.op == "load" and i.res in s.env:
                    a = self.value(s.env, i.args[0])
                    if a.b is None and len(a.leaf.d) == 1:
                        (mo, co), = a.leaf.d.items()
                        if len(mo) == 1 and self.c.alist[mo[0]][:2] == ("fcall", "__errno_location"): out.append((i, s.env[i.res]))
        return out

def vg_arg(g, i):
    from ir import Val
    n, t = g.f.params[i]
    return Val("local", n, t)

class R:
    """verdict helper bound to function and properties"""
    def __init__(self, rep, where): self.rep, self.where = rep, where
    def put(self, v, props, rule, good, bad, site):
        if v is True: self.rep.ok(props, rule, self.where, good)
        elif v is False: self.rep.bad(props, rule, "%s: %s" % (self.where, site), bad, site)
        else: self.rep.und(props, rule, self.where, bad + " (not resolved)")

def alloc_roles(m, fname):
    """callee and argument terms of the allocator call made by a pool allocation function: None if it is itself the target"""
    f = m.mod.funcs.get(fname)
    if f is None: return None
    cs = [i for b in f.blocks for i in b.insts if i.op == "call" and i.extra[0] == "fn" and i.extra[1] in m.mod.kept]
    if len(cs) != 1: return None
    return cs[0].extra[1], cs[0].args

def set_malloc(rep, m, fname):
    poolfn, initarg, lenarg = SETOPS[fname]
    r = R(rep, fname); rep.analysed(fname)
    s = S(m, fname); g = s.g; c = s.c
    try: segs = s.run()
    except Cyclic as e: rep.und(("C25",), "set-search", fname, str(e)); return
    if not s.seg.cuts: rep.und(("C25",), "set-search", fname, "no access to the entries recognised"); return
    # the function that serves a request and where its parameters are
    ref = alloc_roles(m, poolfn); refm = alloc_roles(m, "rseq_mempool_percpu_malloc"); refz = alloc_roles(m, "rseq_mempool_percpu_zmalloc"); refi = alloc_roles(m, "rseq_mempool_percpu_malloc_init")
    alloc = {x[0] for x in (ref, refm, refz, refi) if x} | {"rseq_mempool_percpu_malloc", "rseq_mempool_percpu_zmalloc", "rseq_mempool_percpu_malloc_init"}
    lenv = g.val(vg_arg(g, lenarg))
    initv = g.val(vg_arg(g, initarg)) if initarg is not None else s.k(0)
    site0 = g.site(s.seg.cuts[0])
    starts = []
    fitneeded = []
    il = m.o("rseq_mempool", "item_len")
    for q in segs:
        if q.end.op == "unreachable": continue
        inside(s, r, q, ("C25",))
        calls = [i for i in q.effs if i.op == "call" and i.name in alloc]
        env = q.env; C = q.cond
        site = g.site(calls[0].inst if calls else q.start or q.end)
        if len(calls) > 1: r.put(None, ("C25",), "set-search", "", "several allocations between two looks at the entries", site); continue
        if q.start is None:
            if calls: r.put(False, ("C25",), "set-search", "", "allocates before looking at the entries", site); continue
            if q.end.op == "load": starts.append((C, s.idx(s.value(env, q.end.args[0]))))
            else:
                r.put(s.implies(C, g.icmp("ult", s.k(1 << 62), lenv)), ("C25",), "set-nofit", "gives up without a look only for lengths no entry can hold", "returns without looking at any entry although a pool could hold the length", site)
                notfound(s, r, q, site)
            continue
        A = s.value(env_start(s, q), q.start.args[0]); P = c.leaf(c.var(64, ("sv", q.start.res)))
        isnull = c.apply("eq0", lambda x: c.beq(x, c.const(64, 0)), P)
        itemlen = g.ld(P, "rseq_mempool", "item_len")
        small = g.icmp("ult", itemlen, lenv)
        last = g.icmp("ule", s.k(8 * (NR - 1)), s.idx(A))
        last = c.NOT(g.icmp("ult", s.idx(A), s.k(8 * (NR - 1))))
        if calls:
            call = calls[0]; res = env.get(call.res)
            if res is None: rep.und(("C25",), "set-search", fname, "allocation result unused"); continue
            E = [c.apply("eq12", lambda x: c.beq(x, c.const(x.w, ENOMEM)), v) for i, v in s.errno_loads(q) if i.block.name in q.blocks]
            fail = g.icmp("eq", res, s.k(0))
            e12 = E[0] if E else None
            if len(E) > 1:
                same = c.T
                for x in E[1:]: same = c.AND(same, c.ite(x, e12, c.NOT(e12)))
                C = c.AND(C, same)
                if C is c.F: continue
            # the pool the request is served from
            args = call.args
            rl = roles(call.name, refm, refz, refi, m)
            if rl is None: rep.und(("C25", "C16"), "set-serve", fname, "parameters of %s not recognised" % call.name)
            else:
                pp, zp, ip, lp = rl
                r.put(s.same(args[pp], P, C), ("C25",), "set-serve", "serves the request from the entry found", "serves the request from %s, not from the entry it looked at" % c.s(args[pp])[:120], site)
                if zp is not None:
                    want = refz[1][zp].val if "zmalloc" in fname else refm[1][zp].val
                    got = args[zp]; wn = (c.T if want & 1 else c.F) if refz[1][zp].ty.bits == 1 else g.k(want, refz[1][zp].ty.bits)
                    r.put(s.same(got, wn, C), ("C16",), "set-zero-flag", "zeroing requested exactly by zmalloc", "zeroing flag of the request is not passed on", site)
                elif "zmalloc" in fname and call.name != "rseq_mempool_percpu_zmalloc": r.put(False, ("C16",), "set-zero-flag", "", "zeroing is not requested", site)
                if ip is not None: r.put(s.same(args[ip], initv, C), ("C16",), "set-init", "initial content passed on", "initial content passed is %s" % c.s(args[ip])[:100], site)
                elif initarg is not None: r.put(False, ("C16",), "set-init", "", "the initial content is not passed on", site)
                if lp is not None:
                    if initarg is not None: r.put(s.same(args[lp], lenv, C), ("C16",), "set-len", "length passed on", "length passed is %s" % c.s(args[lp])[:100], site)
                    else:
                        ok = s.implies(c.AND(C, c.NOT(small)), c.NOT(g.icmp("ult", itemlen, args[lp])))
                        r.put(ok, ("C25",), "set-len", "length passed fits the item", "passes a length %s that the chosen pool may refuse" % c.s(args[lp])[:100], site)
            r.put(s.implies(C, c.NOT(isnull)), ("C25",), "set-present", "only present pools are used", "allocates from an absent entry", site)
            ft = s.implies(C, c.NOT(small))
            if ft is not True: fitneeded.append((ft, site))
        if q.end.op == "load":
            A2 = s.value(env, q.end.args[0])
            r.put(s.same(A2, s.add(A, s.k(8)), C), ("C25",), "set-next", "continues with the next larger entry", "does not continue with the next larger entry: index %s after %s" % (c.s(s.idx(A2))[:100], c.s(s.idx(A))[:60]), site)
            if not calls: r.put(s.implies(C, c.OR(isnull, small)), ("C25",), "set-skip", "skips only absent or too small pools", "skips a present pool that could hold the length", site)
            else: r.put(s.implies(C, c.AND(fail, e12) if e12 is not None else c.F), ("C25",), "set-retry", "tries a larger pool only after ENOMEM", "tries another pool although the allocation did not fail with ENOMEM", site)
        elif q.end.op == "ret":
            if not calls:
                r.put(s.implies(C, c.AND(last, c.OR(isnull, small))), ("C25",), "set-exhaust", "fails only after every larger entry", "fails without having tried every larger pool", site)
                notfound(s, r, q, site)
            else:
                rv = s.value(env, q.end.args[0])
                r.put(s.same(rv, res, C), ("C25", "C20"), "set-result", "returns the allocation's result", "returns %s instead of the allocation" % c.s(rv)[:80], site)
                ex = c.AND(fail, e12) if e12 is not None else fail
                r.put(s.implies(c.AND(C, ex), last) if c.AND(C, ex) is not c.F else True, ("C25",), "set-retry-all", "gives up after ENOMEM only at the last entry", "gives up after one pool ran out of memory although larger ones remain", site)
                for i in after(q, calls[0]):
                    ev = s.errno(i)
                    if ev is not None:
                        ok = s.implies(C, fail) and s.same(ev, s.k(ENOMEM, 32), C) and (s.implies(C, e12) if e12 is not None else False)
                        r.put(bool(ok), ("C25",), "set-errno", "", "overwrites the allocation's error code", site)
    # where the search starts
    import random
    lens = sorted({x for k in range(64) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << k >> 1)} | {0})
    for C, ix in starts:
        worst = None; low = True; ok = True
        for L in lens:
            if L >= 1 << 64: continue
            e = decide.Env(c, random.Random(1), {**s.d.hints, ("arg", lenarg): (lambda env, L=L: L)}, None)
            try:
                if not e.node(C): continue
                v = e.node(ix)
            except Exception as x: ok = None; worst = repr(x); break
            need = max(MINE, (L - 1).bit_length() if L else 0)
            if v % 8 or decide.tosigned(v, 64) // 8 > need: worst = "for length %d the search starts at order %d although %d could hold it" % (L, decide.tosigned(v, 64) // 8, need); ok = False; break
            if decide.tosigned(v, 64) < 0: worst = "for length %d the search starts before the first entry" % L; ok = False; break
            if v // 8 < need: low = False
        unres = [a for a in c.deep_atoms(ix) if c.alist[a][0] in ("call", "mu", "sv")]
        if ok is False and unres: ok = None
        r.put(ok, ("C25",), "set-start", "the search starts no later than the smallest order that can hold the length", worst or "", site0)
        for ft, site in fitneeded:
            if low and ok is True: r.put(True, ("C25",), "set-fit", "the entries searched all hold the length", "", site)
            else: r.put(ft, ("C25",), "set-fit", "", "serves a request from a pool whose items may be smaller than the length", site)
    if not fitneeded: r.put(True, ("C25",), "set-fit", "length compared with the item size", "", site0)
    if not starts: rep.und(("C25",), "set-start", fname, "no start found")

def inside(s, r, q, props):
    if q.end.op != "load": return
    A = s.value(q.env, q.end.args[0])
    r.put(s.implies(q.cond, s.g.icmp("ult", s.idx(A), s.k(8 * NR))), props, "set-bounds", "looks only at entries of the set", "reads beyond the last entry of the set", s.g.site(q.end))

def env_start(s, q): return {}

def after(q, call):
    out = []; on = False
    for i in q.effs:
        if i is call: on = True; continue
        if on: out.append(i)
    return out

def notfound(s, r, q, site):
    c = s.c
    rv = s.value(q.env, q.end.args[0])
    r.put(s.same(rv, s.k(0), q.cond), ("C25",), "set-null", "not found gives NULL", "returns %s when no pool was found" % c.s(rv)[:80], site)
    es = [s.errno(i) for i in q.effs]; es = [e for e in es if e is not None]
    if es: r.put(s.same(es[-1], s.k(ENOMEM, 32), q.cond), ("C25", "C20"), "set-enomem", "not found sets ENOMEM", "error code is not ENOMEM when no pool was found", site)
    else: r.put(False, ("C25", "C20"), "set-enomem", "", "no error code is set when no pool was found", site)

def roles(callee, refm, refz, refi, m):
    """(pool, zero flag or None, init pointer or None, length or None) positions"""
    if callee == "rseq_mempool_percpu_malloc": return 0, None, None, None
    if callee == "rseq_mempool_percpu_zmalloc": return 0, None, None, None
    if callee == "rseq_mempool_percpu_malloc_init": return 0, None, 1, 2
    if not (refm and refz and refi) or not (refm[0] == refz[0] == refi[0] == callee): return None
    pos = lambda ref, fn, i: [k for k, a in enumerate(ref[1]) if a.kind == "local" and a.name == m.mod.funcs[fn].params[i][0]]
    p = pos(refm, "rseq_mempool_percpu_malloc", 0); ip = pos(refi, "rseq_mempool_percpu_malloc_init", 1); lp = pos(refi, "rseq_mempool_percpu_malloc_init", 2)
    z = [k for k in range(len(refm[1])) if refm[1][k].kind == "int" and refz[1][k].kind == "int" and refm[1][k].val != refz[1][k].val]
    if len(p) != 1 or len(ip) != 1 or len(lp) != 1 or len(z) != 1: return None
    return p[0], z[0], ip[0], lp[0]

def set_add(rep, m):
    fn = "rseq_mempool_set_add_pool"; r = R(rep, fn); rep.analysed(fn)
    s = S(m, fn); g = s.g; c = s.c
    try: segs = s.seg.run(lambda i: False)
    except Cyclic as e: rep.und(("C25",), "set-add", fn, str(e)); return
    pool = g.val(vg_arg(g, 1))
    order = g.ld(pool, "rseq_mempool", "item_order")
    o64 = c.apply(("ext", 64, True), lambda p: g._extp(p, 64, True), order) if m.st and True else order
    E = s.add(s.a0, s.k(s.ent), g.mul(o64, s.k(8)))
    for q in segs:
        if q.end.op != "ret": continue
        site = g.site(q.end); env, C = q.env, q.cond
        lds = [env[i.res] for b in q.blocks for i in g.f.bmap[b].insts if i.op == "load" and i.res in env and s.same(s.value(env, i.args[0]), E, C)]
        oth = [i for b in q.blocks for i in g.f.bmap[b].insts if i.op == "load" and s._based(i.args[0], 0) and not s.same(s.value(env, i.args[0]), E, C)]
        sts = [i for i in q.effs if i.op == "store" and s.errno(i) is None]
        rv = s.value(env, q.end.args[0])
        for i in oth: r.put(False, ("C25",), "add-slot", "", "looks at another entry than the one of the pool's item size: index %s" % c.s(s.idx(s.value(env, i.args[0])))[:80], g.site(i))
        empty = c.T
        if not lds:
            if not oth: r.put(False, ("C25",), "add-test", "", "adds a pool without looking whether its size is already present", site)
            continue
        v = lds[0]; isz = lambda n: c.apply("eq0", lambda x: c.beq(x, c.const(64, 0)), n)
        # every look gives the same value while the lock is held (C13)
        for w in lds[1:]: C = c.AND(C, c.ite(isz(w), isz(v), c.NOT(isz(v))))
        if C is c.F: continue
        empty = isz(v)
        if sts:
            i = sts[0]
            if len(sts) > 1: r.put(None, ("C25",), "add-store", "", "several stores", site); continue
            r.put(s.same(i.args[1], E, C) and s.same(i.args[0], pool, C), ("C25",), "add-store", "records the pool under its item size", "records %s at index %s" % (c.s(i.args[0])[:60], c.s(s.idx(i.args[1]))[:80]), g.site(i.inst))
            r.put(s.implies(C, empty), ("C25",), "add-unique", "adds only when no pool of that size is present", "replaces a pool of the same size already present", g.site(i.inst))
            r.put(s.same(rv, s.k(0, 32), C), ("C25",), "add-ok", "returns 0", "returns %s after adding" % c.s(rv)[:60], site)
        else:
            r.put(s.implies(C, c.NOT(empty)), ("C25",), "add-refuse", "refuses only duplicates", "does not record the pool although its size is free", site)
            r.put(s.same(rv, s.k(-1, 32), C), ("C25",), "add-busy", "returns -1", "returns %s when refusing" % c.s(rv)[:60], site)
            es = [x for x in (s.errno(i) for i in q.effs) if x is not None]
            r.put(bool(es) and s.same(es[-1], s.k(EBUSY, 32), C), ("C25",), "add-errno", "EBUSY", "error code is not EBUSY", site)
        bad = [i for i in q.effs if i.op == "call" and i.name in ("free", "rseq_mempool_destroy", "munmap")]
        r.put(not bad, ("C25",), "add-owner", "the pool is left to the caller when refused", "releases the caller's pool", site)

def set_create(rep, m):
    fn = "rseq_mempool_set_create"; r = R(rep, fn); rep.analysed(fn)
    s = Seg(m.mod, fn, m.imm, m.st); g = s.g; c = s.c
    try: segs = s.run(lambda i: False)
    except Cyclic as e: rep.und(("C25",), "set-create", fn, str(e)); return
    size = m.st["rseq_mempool_set"]["size"]
    for q in segs:
        if q.end.op != "ret": continue
        g.tmemo = q.env; rv = g.val(q.end.args[0]); site = g.site(q.end)
        al = [i for i in q.effs if i.op == "call" and i.name in ("calloc", "malloc")]
        if len(al) != 1: r.put(None, ("C25",), "set-create", "", "%d allocations" % len(al), site); continue
        a = q.env[al[0].res]; isz = g.icmp("eq", a, g.k(0))
        if c.AND(q.cond, c.NOT(isz)) is c.F:
            if not (rv is g.k(0) or rv is a): r.put(False, ("C25", "C20"), "set-create-fail", "", "does not return NULL when out of memory", site)
            else: r.put(True, ("C25", "C20"), "set-create-fail", "NULL when out of memory", "", site)
            continue
        r.put(c.AND(q.cond, isz) is c.F, ("C25", "C20"), "set-create-test", "allocation failure tested", "uses the set without testing the allocation", site)
        r.put(rv is a, ("C25",), "set-create-ret", "returns the new set", "returns something else than the new set", site)
        args = al[0].args
        if al[0].name == "calloc":
            n = [c.cval(x.leaf) for x in args]
            r.put(None if None in n else n[0] * n[1] >= size, ("C25",), "set-create-zero", "all entries start empty", "allocates %s bytes for a set of %d" % (n, size), site)
        else:
            ms = [i for i in q.effs if i.op == "call" and "memset" in i.name]
            ok = [i for i in ms if i.args[0] is a and c.cval(i.args[2].leaf) is not None and c.cval(i.args[2].leaf) >= size and c.cval(i.args[1].leaf) == 0]
            r.put(True if ok else None if ms else False, ("C25",), "set-create-zero", "all entries start empty", "the entries of a new set are not cleared", site)
        li = [i for i in q.effs if i.op == "call" and i.name == "pthread_mutex_init"]
        ok = any(i.args[0] is g.add(a, g.k(m.o("rseq_mempool_set", "lock"))) for i in li)
        r.put(True if ok else None if li else False, ("C13",), "set-lock-init", "the lock is initialised", "the set's lock is never initialised", site)

def set_destroy(rep, m):
    fn = "rseq_mempool_set_destroy"; r = R(rep, fn); rep.analysed(fn)
    s = S(m, fn); g = s.g; c = s.c
    try: segs = s.run()
    except Cyclic as e: rep.und(("C21",), "set-destroy", fn, str(e)); return
    if not s.seg.cuts: rep.und(("C21",), "set-destroy", fn, "no access to the entries recognised"); return
    isz = lambda n: c.apply("eq0", lambda x: c.beq(x, c.const(x.w, 0)), n)
    for q in segs:
        if q.end.op == "unreachable": continue
        inside(s, r, q, ("C21",))
        env, C = q.env, q.cond
        calls = [i for i in q.effs if i.op == "call" and i.name == "rseq_mempool_destroy"]
        fr = [i for i in q.effs if i.op == "call" and i.name == "free"]
        site = g.site(calls[0].inst if calls else q.start or q.end)
        if q.start is None:
            if q.end.op != "load": r.put(False, ("C21",), "set-destroy-all", "", "returns without looking at the entries", site); continue
            ix = s.idx(s.value(env, q.end.args[0])); v = c.cval(ix.leaf) if ix.b is None else None
            v = decide.tosigned(v, 64) if v is not None else None
            r.put(None if v is None else 0 <= v <= 8 * MINE, ("C21",), "set-destroy-start", "starts at the first entry", "starts at entry %s: pools of smaller items are never destroyed" % (v // 8 if v is not None else "?"), site)
            continue
        A = s.value({}, q.start.args[0]); P = c.leaf(c.var(64, ("sv", q.start.res)))
        last = c.NOT(g.icmp("ult", s.idx(A), s.k(8 * (NR - 1))))
        if len(calls) > 1: r.put(None, ("C21",), "set-destroy", "", "several destroys for one entry", site); continue
        sts = [i for i in q.effs if i.op == "store" and s._based(i.inst.args[1], 0)]
        clr = [i for i in sts if s.same(i.args[1], A, C) and s.same(i.args[0], s.k(0), C)]
        res = isz(env[calls[0].res]) if calls and calls[0].res in env else None
        if calls:
            r.put(s.same(calls[0].args[0], P, C), ("C21",), "set-destroy-arg", "destroys the pool of the entry", "destroys something else than the pool of the entry", site)
            r.put(s.implies(C, c.NOT(isz(P))), ("C21",), "set-destroy-null", "only present pools are destroyed", "destroys an absent entry", site)
        else: r.put(s.implies(C, isz(P)), ("C21",), "set-destroy-skip", "every present pool is destroyed", "skips a present pool: it is leaked", site)
        if len(sts) != len(clr): r.put(False, ("C21",), "set-destroy-store", "", "changes another entry", site)
        if q.end.op == "load":
            A2 = s.value(env, q.end.args[0])
            r.put(s.same(A2, s.add(A, s.k(8)), C), ("C21",), "set-destroy-next", "goes on with the next entry", "does not go on with the next entry", site)
            if calls:
                r.put(False if res is None else s.implies(C, res), ("C21",), "set-destroy-fail", "goes on only after success", "goes on although destroying a pool failed: the failure is lost", site)
                r.put(bool(clr), ("C21",), "set-destroy-clear", "destroyed pools are removed from the set", "a destroyed pool stays in the set: a retry after a later failure destroys it twice", site)
            if fr: r.put(False, ("C21",), "set-destroy-free", "", "frees the set while entries remain", site)
        else:
            rv = s.value(env, q.end.args[0])
            if fr:
                r.put(len(fr) == 1 and s.same(fr[0].args[0], s.a0, C), ("C21",), "set-destroy-free", "frees the set once", "does not free exactly the set", site)
                r.put(s.implies(C, last), ("C21",), "set-destroy-all", "frees the set only after the last entry", "frees the set before all its pools are destroyed", site)
                r.put(s.same(rv, s.k(0, 32), C), ("C21",), "set-destroy-ret", "returns 0", "returns %s after destroying everything" % c.s(rv)[:60], site)
                if calls: r.put(False if res is None else s.implies(C, res), ("C21",), "set-destroy-fail", "", "frees the set although destroying its last pool failed", site)
            else:
                if not calls: r.put(False, ("C21",), "set-destroy-free", "", "returns without freeing the set although nothing failed", site); continue
                r.put(False if res is None else s.implies(C, c.NOT(res)), ("C21",), "set-destroy-stop", "stops early only on failure", "returns without freeing the set although nothing failed", site)
                r.put(s.implies(C, c.NOT(isz(rv))), ("C21",), "set-destroy-report", "failure is reported", "reports success although destroying a pool failed", site)
                r.put(not clr, ("C21",), "set-destroy-keep", "a pool that could not be destroyed stays in the set", "forgets a pool that could not be destroyed", site)

def run(rep, shared=None):
    m = mp.MP("s")
    for f in SETOPS: set_malloc(rep, m, f)
    set_add(rep, m); set_create(rep, m); set_destroy(rep, m)

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(100000)
    from report import Report
    r = Report(); run(r)
    for k, v in sorted(r.obl.items()):
        if v[1] != "holds" or "-v" in sys.argv: print(v[1], k, v[2][:300])
    print(len(r.obl))
