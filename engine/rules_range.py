"""Contract of range creation: C19 C20 C22 C24 (+ C14 C16 C21)."""
import mp, vg
from fa import Chk, NORETURN
from report import Report, parallel
from rules_pool import errno_addr, path_between, guarded, cfgd, lab, ENOMEM

FAILED = (1 << 64) - 1

def const(f, n): return f.c.cval(n.leaf) if n is not None and n.b is None and not isinstance(n.leaf, bool) else None

class Ob:
    """equality obligations under a condition"""
    def __init__(self, k): self.k = k; self.f = k.fa; self.c = k.c
    def eq(self, props, rule, A, B, G, text, site=None):
        d = self.f.d.diff(A, B, G)
        if d is None: self.k.ok(props, rule, text); return True
        if self.f.resolved(A) or not isinstance(d.a, bool) and self.f.resolved(self.c.leaf(d.a)): self.k.bad(props, rule, "%s: %s" % (text, d.text()), site)
        else: self.k.und(props, rule, "%s: not resolved: %s" % (text, self.f.s(A)[:200]))
        return False
    def holds(self, props, rule, cond, G, text, site=None):
        """cond is true whenever G is"""
        d = self.f.d.diff(cond, self.c.T, G)
        if d is None: self.k.ok(props, rule, text); return True
        kx = [b for b in self.c.support(cond) if self.c.blist[b][0] not in ("eq", "ult", "slt", "bit0", "argb", "brk")]
        if kx: self.k.und(props, rule, text + ": not resolved")
        else: self.k.bad(props, rule, "%s: fails when %s" % (text, d.text("holds", "required")), site)
        return False

def run(rep, m=None):
    m = m or mp.MP()
    if not m.creator:
        for p in ("C19", "C20", "C22", "C24"): rep.und((p,), "range-create", "src/rseq-mempool.c", "no single internal function creates a range")
        return m
    fn = m.creator
    rep.analysed(fn)
    imm0 = m.imm
    m2imm = lambda tag: imm0(tag) and tag[0] != "rseq_mempool_range"
    H = m.hints(); H[("arg", 0)] = lambda e: e.poolptr; H[("fixarg", 0)] = True
    from fa import FA
    f = FA(m.mod, fn, m.st, m2imm, H)
    c = f.c
    mm = [e for e in f.g.effects() if e.kind == "call" and e.name == "mmap"]
    anon = [e for e in mm if (const(f, e.args[3]) or 0) & 0x20]
    if len(anon) != 1 or anon[0].loops:
        for p in ("C19", "C20", "C22"): rep.und((p,), "range-create", fn, "%d anonymous mappings" % len(anon))
        return m
    am = anon[0]
    a = c.single(am.res.leaf)
    H[("call", "mmap", c.alist[a][2])] = lambda env: env.r.choice((FAILED, env.fresh_base() - 2 * env.page, env.fresh_base() + env.page * env.r.randrange(16), env.fresh_base() + env.page * env.r.randrange(16)))
    for e in mm:
        x = c.single(e.res.leaf) if e.res is not None and e.res.b is None and not isinstance(e.res.leaf, bool) else None
        if e is am or x is None or c.alist[x][0] != "call" or not (const(f, e.args[3]) or 0) & 0x10: continue
        fx = lambda env, at=e.args[0]: env.r.choice((FAILED, env.node(at)))      # MAP_FIXED: there or nowhere
        fx.dep = True; H[("call", "mmap", c.alist[x][2])] = fx
    P = f.arg(0); pl = m.P(f, P)
    nr = f.fld(P, "rseq_mempool", "nr_ranges"); mx = pl.max_nr_ranges
    nraddr = f.faddr(P, "rseq_mempool", "nr_ranges")
    nrl = f.loads(nraddr)
    sub = None
    if nrl:
        s0 = f.unify([n for i, n in nrl]); nr = nrl[0][1]; sub = s0
    limit = c.AND(f.nz(mx), c.NOT(f.ult(nr, mx)))
    def limited():
        v = f.view(limit, sub, {}, True)
        k = Chk(rep, v, "range limit reached"); o = Ob(k)
        o.eq(("C24",), "limit-ret", v.R(f.g.ret_value()), f.K(0), limit, "returns NULL")
        for it in v.items:
            if it.kind == "call" and it.name in ("mmap", "memfd_create", "calloc"): k.bad(("C24",), "limit", "memory is acquired although max_nr_ranges is reached", it.e.site)
        k.nostore(("C24",), "limit-count", nraddr, "nr_ranges")
    guarded(rep, fn, limited, ("C24",), "limit")
    def overflow():
        for so, nc in ((34, (1 << 30) + 1), (44, (1 << 20) + 1), (40, (1 << 24) + 3)):
            for cow in (0, 1):
                cf = cfgd(0, cow); cf.update(init_set=0, type=0, stride=1 << so, ncpu=nc)
                G = c.AND(c.NOT(pl.robust), pl.cowinit if cow else c.NOT(pl.cowinit), c.NOT(limit))
                v = f.view(G, sub, cf, True)
                k = Chk(rep, v, "length overflows"); o = Ob(k)
                hit = [it for it in v.items if it.e is am]
                if not hit:
                    k.ok(("C19",), "length-overflow", "a range whose length does not fit is not mapped")
                    o.eq(("C19", "C20"), "length-overflow-ret", v.R(f.g.ret_value()), f.K(0), G, "returns NULL")
                elif f.resolved(hit[0].top): k.bad(("C19",), "length-overflow", "stride * max_nr_cpus wraps around (stride 2^%d, %d CPUs) and a smaller range is mapped" % (so, nc), am.site)
                else: k.und(("C19",), "length-overflow", "")
    guarded(rep, fn, overflow, ("C19",), "overflow")
    cases = []
    for robust in (0, 1):
        for cow in (0, 1):
            cases.append((robust, cow, 0, 0)); cases.append((robust, cow, 1, 0))
            if not cow: cases.append((robust, cow, 1, 1))
    def job(robust, cow, iset, typ):
        def run1(rp):
            cf = cfgd(robust, cow); cf["init_set"] = iset; cf["type"] = typ
            if typ: cf["ncpu"] = 1
            guarded(rp, fn, lambda: create_case(rp, m, f, pl, P, am, nr, nraddr, sub, limit, robust, cow, iset, typ, cf), ("C19", "C20", "C22", "C24"), lab(robust, cow, "init%d type%d" % (iset, typ)))
        return run1
    parallel(rep, [job(*x) for x in cases])
    return m

def create_case(rep, m, f, pl, P, am, nr, nraddr, sub, limit, robust, cow, iset, typ, cf):
    c = f.c
    fld = lambda p: f.fld(P, "rseq_mempool", p)
    G = c.AND(pl.robust if robust else c.NOT(pl.robust), pl.cowinit if cow else c.NOT(pl.cowinit), f.nz(fld("attr.init_set")) if iset else f.isz(fld("attr.init_set")),
        f.eq(fld("attr.type"), f.K(typ, 32)), c.NOT(limit))
    label = lab(robust, cow, ("init func, " + ("global" if typ else "percpu")) if iset else "")
    # failed mapping
    Gf = c.AND(G, f.eq(am.res, f.K(FAILED)))
    v = f.view(Gf, sub, cf, True); k = Chk(rep, v, label + " mapping fails"); o = Ob(k)
    o.eq(("C20",), "mapfail-ret", v.R(f.g.ret_value()), f.K(0), Gf, "returns NULL")
    for it in v.items:
        if it.kind == "call" and it.name in ("munmap", "madvise", "close", "free"): k.bad(("C20",), "mapfail", "%s called although nothing was mapped" % it.name, it.e.site)
    k.nostore(("C20", "C24"), "mapfail-count", nraddr, "nr_ranges")
    # mapped
    Gm = c.AND(G, c.NOT(f.eq(am.res, f.K(FAILED))))
    v = f.view(Gm, sub, cf, True)
    # the bitmap field holds what was stored in it
    cal = [i for i in v.items if i.kind == "call" and i.name in ("calloc", "malloc") ]
    bmoff = m.o("rseq_mempool_range", "alloc_bitmap")
    ats = set()
    for b in f.g.cfg.rpo:
        for i in f.g.f.bmap[b].insts:
            t = m.mod.tbaa_tag(i.tbaa) if i.op == "load" else None
            if t and t[0] == "rseq_mempool_range" and t[1] == bmoff:
                for l in c.leaves(f.g.val(f.g._resval(i))):
                    x = c.single(l) if not isinstance(l, bool) else None
                    if x is not None: ats.add(x)
    if ats and len(cal) <= 1:
        rep_ = c.ite(v.R(cal[0].top), cal[0].res, f.K(0)) if cal else f.K(0)
        sub0 = sub
        def sub2(x):
            if sub0: x = sub0(x)
            for a in ats: x = f.g.subst(x, a, rep_)
            return x
        v = f.view(Gm, sub2, cf, True)
    k = Chk(rep, v, label); o = Ob(k)
    dead = c.F
    for it, cond in v.aborts():
        if it.name == "__assert_fail":
            k.und(("C19", "C20"), "assert", "assertion may fail at %s" % it.e.site)
        dead = c.OR(dead, cond)
    G0 = c.AND(Gm, c.NOT(dead))
    ret = v.R(f.g.ret_value())
    S = f.nz(ret)
    GS = c.AND(G0, S); GF = c.AND(G0, c.NOT(S))
    if not f.feasible(GS): k.bad(("C19", "C20"), "create-ret", "a range can never be created"); return
    R = ret; B = f.add(ret, f.K(m.RS))
    s, n = pl.stride, pl.ncpu
    need = f.mul(s, f.add(n, f.K(int(robust) + int(cow))))
    mmr = am.res; L = v.R(am.args[1]); page = f.c.leaf(f.c.var(64, ("page",)))
    PG = ("C19",)
    fl = const(f, am.args[3]); pr = const(f, am.args[2])
    if fl is not None and (fl & 0x1f) != 2: k.bad(PG + ("C22",), "map-flags", "the range is not mapped private", am.site)
    if pr is not None and (pr & 3) != 3: k.bad(PG, "map-prot", "the range is not mapped read-write", am.site)
    # recorded fields
    def fieldval(path):
        """value stored in R.path on the successful paths (None when never stored)"""
        off = m.o("rseq_mempool_range", path); out = None; ms = []
        for it in v.stores():
            if it.loops: continue
            t = it.e.tag
            if not (t and t[0] == "rseq_mempool_range" and t[1] == off): continue
            if not f.feasible(c.AND(GS, it.top)): it.claimed = True; continue
            o.eq(PG, "range-place", it.addr, f.add(R, f.K(off)), c.AND(GS, it.top), "field %s is stored in the range that is returned" % path, it.e.site)
            it.claimed = True; ms.append(it)
            out = it.val if out is None else c.ite(it.top, it.val, out)
        return out, ms
    def must(path, exp, props, text):
        val, ms = fieldval(path)
        if val is None:
            if k.unknown_writes(): k.und(props, "range-" + path, "store not recognised"); return None
            k.bad(props, "range-" + path, "%s is never recorded" % text); return None
        top = c.F
        for x in ms: top = c.OR(top, x.top)
        o.holds(props, "range-" + path, top, GS, text + " is recorded")
        if exp is not None: o.eq(props, "range-" + path, val, exp, GS, text, ms[-1].e.site)
        return val
    must("pool", P, ("C19", "C15"), "back reference to the pool")
    must("base", B, ("C19", "C14"), "base of the item area (placed right after the range structure)")
    o.eq(PG + ("C14",), "base-aligned", f.band(B, f.sub(s, f.K(1))), f.K(0), GS, "item area aligned on the stride")
    if cow: must("init", f.add(B, f.mul(s, n)), PG, "initial values placed after the last CPU")
    else:
        val, ms = fieldval("init")
        if val is not None: o.eq(PG, "range-init", val, f.K(0), GS, "no initial values", ms[-1].e.site)
    MA = must("mmap_addr", None, ("C21", "C20"), "start of the mapping")
    ML = must("mmap_len", None, ("C21", "C20"), "length of the mapping")
    HD = must("header", None, ("C22",), "header pages")
    val, ms = fieldval("next_unused")
    if val is not None: o.eq(("C14",), "next-unused-zero", val, f.K(0), GS, "a new range starts unused", ms[-1].e.site)
    if MA is None or ML is None: return
    end = f.add(MA, ML); lend = f.add(mmr, L)
    leq = lambda x, y: c.NOT(f.ult(y, x))
    o.holds(PG + ("C14",), "room-cpus", leq(f.add(B, need), lend), GS, "item memory of every CPU%s%s lies in the mapping" % (", the initial values" if cow else "", ", the free list" if robust else ""), am.site)
    o.holds(PG + ("C21",), "room-recorded", leq(f.add(B, need), end), GS, "the recorded mapping contains all item memory")
    o.holds(PG, "room-header", leq(f.add(MA, page, f.K(m.RS)), B), GS, "a canary page and the range structure precede the item area")
    o.holds(PG, "map-start", leq(mmr, MA), GS, "recorded mapping starts inside what was mapped")
    if HD is not None: o.eq(("C22", "C21"), "range-header", HD, f.sub(f.sub(B, page), page), GS, "header is the two pages before the item area")
    # unmaps
    um = v.calls("munmap")
    head = c.F; tail = c.F
    rel = c.F; relit = []
    for it in um:
        it.claimed = True
        ad, ln = it.args[0], it.args[1]
        gs = c.AND(GS, it.top); gf = c.AND(GF, it.top)
        if f.feasible(gs):
            if f.same(ad, mmr, gs) and f.same(ln, f.sub(MA, mmr), gs): head = c.OR(head, it.top)
            elif f.same(ad, end, gs) and f.same(ln, f.sub(lend, end), gs): tail = c.OR(tail, it.top)
            else:
                if f.resolved(ad) and f.resolved(ln): k.bad(("C19", "C20", "C21"), "unmap-extra", "unmaps [%s, +%s) which is not the unused head or tail of the mapping" % (f.s(ad)[:200], f.s(ln)[:200]), it.e.site)
                else: k.und(("C19", "C20"), "unmap-extra", f.s(ad)[:200])
        elif f.feasible(gf):
            relit.append(it)
            rel = c.OR(rel, it.top)
    o.holds(("C20", "C21"), "unmap-head", c.OR(head, f.eq(MA, mmr)), GS, "memory before the recorded mapping is given back")
    o.holds(("C20", "C21"), "unmap-tail", c.OR(tail, f.eq(end, lend)), GS, "memory after the recorded mapping is given back")
    if f.feasible(GF):
        o.holds(("C20",), "fail-unmap", rel, GF, "a failed creation unmaps the range", relit[0].e.site if relit else None)
        for x in relit:
            # the mapping that remained after trimming
            hd = c.ite(head, f.sub(MA, mmr), f.K(0))
            o.eq(("C20",), "fail-unmap-addr", x.args[0], MA_fail(f, v, m, "mmap_addr", MA), c.AND(GF, x.top), "unmapped address is the recorded one", x.e.site)
            o.eq(("C20",), "fail-unmap-len", x.args[1], MA_fail(f, v, m, "mmap_len", ML), c.AND(GF, x.top), "unmapped length is the recorded one", x.e.site)
            for y in relit:
                if y is not x and f.feasible(c.AND(GF, x.top, y.top)) and f.same(x.args[0], y.args[0], c.AND(GF, x.top, y.top)): k.bad(("C20",), "fail-unmap", "unmapped twice", y.e.site)
    # steps that can fail
    allok = G0
    def step(it, failcond, what, props):
        nonlocal allok
        if not it.loops:
            bad = c.AND(it.top, failcond)
            o.holds(props, "step-checked", c.NOT(bad), GS, "failure of %s makes the creation fail" % what, it.e.site)
            allok = c.AND(allok, c.NOT(bad))
        else:
            l = it.loops[-1]
            brs = [b for b in c.support(S) | c.support(v.R(ret)) if c.blist[b][0] == "brk" and f.g.break_info(b)[0] is l]
            ok = False
            for b in brs:
                bi = f.g.break_info(b); cond = v.R(f.g.simp(bi[2]))
                if l.counter is not None:
                    u, sx = l.counter; t = f.g.f.bmap[u].insts[-1]; cd = f.g.val(t.args[0]); cont = cd if t.extra[1] == sx else c.NOT(cd)
                    for x, vv in c.implied_literals(cont): cond = c.restrict(cond, x, vv)
                if c.restrict(S, b, True) is c.F or not f.feasible(c.AND(GS, c.node(b, c.T, c.F))):
                    ok = True
                    o.eq(props, "step-checked", cond, failcond, c.AND(Gm, it.top), "loop stops when %s fails" % what, it.e.site)
                    allok = c.AND(allok, c.node(b, c.F, c.T))
            if not ok: k.bad(props, "step-checked", "failure of %s is ignored" % what, it.e.site)
    fds = v.calls("memfd_create")
    fmaps = [i for i in v.calls("mmap") if i.e is not am]
    K0 = f.K(0)
    def kdim(it, n0):
        """arg is base+k*stride with k over 0..n0"""
        r = v.affine(n0, it.loops)
        return r
    if cow:
        PI = ("C16", "C19", "C22")
        if len(fds) != 1: k.und(PI, "memfd", "%d memfd_create calls" % len(fds)); fd = None
        else:
            fd = fds[0].res
            fneg = f.slt(fd, f.K(0, 32))
            step(fds[0], fneg, "memfd_create", ("C20",))
            o.holds(PI, "memfd", fds[0].top, GS, "initial values live in a memfd")
            fl = const(f, fds[0].args[1])
            ft = v.calls("ftruncate")
            if not ft: k.bad(PI, "memfd-size", "the memfd is never given a size")
            for t in ft:
                o.eq(PI, "memfd-size", t.args[1], s, c.AND(GS, t.top), "memfd covers one stride", t.e.site)
                o.eq(PI, "memfd-size", t.args[0], fd, c.AND(GS, t.top), "ftruncate applies to the memfd", t.e.site)
                step(t, f.nz(t.res), "ftruncate", ("C20",))
            # close
            cl = v.calls("close"); tot = c.F
            for x in cl:
                o.eq(("C20",), "close-fd", x.args[0], fd, c.AND(G0, x.top), "close applies to the memfd", x.e.site)
                if f.feasible(c.AND(G0, tot, x.top)): k.bad(("C20",), "close-once", "the memfd is closed twice on a path", x.e.site)
                tot = c.OR(tot, x.top)
            o.holds(("C20",), "close-fd", tot, c.AND(G0, fds[0].top, c.NOT(fneg)), "the memfd is closed on every path", fds[0].e.site)
            sh = [x for x in fmaps if not x.loops]; pv = [x for x in fmaps if x.loops]
            good = c.F
            for x in sh:
                x.claimed = True
                fl = const(f, x.args[3]); pr = const(f, x.args[2])
                if f.same(x.args[0], f.add(B, f.mul(s, n)), c.AND(GS, x.top)):
                    if fl is None or (fl & 3) != 1 or not fl & 0x10 or fl & 0x20: k.bad(PI, "init-shared", "initial values are not a fixed shared mapping of the memfd (flags %s)" % fl, x.e.site)
                    else: k.ok(PI, "init-shared", "MAP_SHARED|MAP_FIXED")
                    o.eq(PI, "init-shared-len", x.args[1], s, c.AND(GS, x.top), "length of the initial values mapping", x.e.site)
                    good = c.OR(good, x.top)
                else:
                    o.eq(PI, "init-shared", x.args[0], f.add(B, f.mul(s, n)), c.AND(GS, x.top), "initial values are mapped after the last CPU", x.e.site)
                    good = c.OR(good, x.top)
                if pr is not None and pr & 3 != 3: k.bad(PI, "init-prot", "not read-write", x.e.site)
                o.eq(PI, "init-fd", x.args[4], fd, c.AND(GS, x.top), "maps the memfd", x.e.site)
                o.eq(PI, "init-off", x.args[5], K0, c.AND(GS, x.top), "maps the memfd from its start", x.e.site)
                step(x, c.NOT(f.eq(x.res, x.args[0])), "mapping the initial values", ("C20",))
            if sh: o.holds(PI, "init-shared", good, GS, "initial values are mapped")
            else: k.bad(PI, "init-shared", "initial values are never mapped from the memfd") if not k.unknown_writes() else k.und(PI, "init-shared")
            if not pv: k.bad(PI, "cpu-private", "per-CPU memory is not a private mapping of the initial values")
            for x in pv:
                x.claimed = True
                fl = const(f, x.args[3]); pr = const(f, x.args[2])
                if fl is None or (fl & 3) != 2 or not fl & 0x10 or fl & 0x20: k.bad(PI, "cpu-private", "per-CPU memory is not a fixed private mapping of the memfd (flags %s)" % fl, x.e.site)
                else: k.ok(PI, "cpu-private", "MAP_PRIVATE|MAP_FIXED")
                if pr is not None and pr & 3 != 3: k.bad(PI, "cpu-prot", "not read-write", x.e.site)
                o.eq(PI, "cpu-private-len", x.args[1], s, c.AND(GS, x.top), "length of each CPU's mapping", x.e.site)
                o.eq(PI, "cpu-fd", x.args[4], fd, c.AND(GS, x.top), "maps the memfd", x.e.site)
                o.eq(PI, "cpu-off", x.args[5], K0, c.AND(GS, x.top), "maps the memfd from its start", x.e.site)
                each_cpu(k, o, f, v, x, x.args[0], B, s, n, GS, PI, "cpu-private-each")
                step(x, c.NOT(f.eq(x.res, x.args[0])), "mapping a CPU's memory", ("C20",))
                o.holds(PI, "cpu-private", x.top, GS, "per-CPU mappings are made")
        md = v.calls("madvise")
        df = [x for x in md if const(f, x.args[2]) == 10]; wf = [x for x in md if const(f, x.args[2]) == 18]
        for nm, lst, ad, ln, what in (("dontfork", df, B, need, "item memory, initial values and free list are not inherited by children"),
                ("wipeonfork", wf, f.sub(f.sub(B, page), page), page, "the canary page, and only it, is wiped in children")):
            if not lst: k.bad(("C22",), nm, what + ": no such madvise call")
            top = c.F
            for x in lst:
                x.claimed = True
                o.eq(("C22",), nm, x.args[0], ad, c.AND(GS, x.top), what + " (address)", x.e.site)
                o.eq(("C22",), nm, x.args[1], ln, c.AND(GS, x.top), what + " (length)", x.e.site)
                step(x, f.nz(x.res), "madvise", ("C20", "C22"))
                top = c.OR(top, x.top)
            if lst: o.holds(("C22",), nm, top, GS, what)
        for x in md:
            if x not in df and x not in wf: k.und(("C22",), "madvise", "other advice at %s" % x.e.site)
        can = f.sub(f.sub(B, page), page)
        st = [x for x in v.stores() if not x.loops and not x.claimed and f.feasible(c.AND(GS, x.top)) and f.same(x.addr, can, c.AND(GS, x.top))]
        if not st: k.bad(("C22",), "canary", "the canary byte is never written") if not k.unknown_writes() else k.und(("C22",), "canary")
        top = c.F
        for x in st:
            x.claimed = True; top = c.OR(top, x.top)
            cv = const(f, x.val)
            if cv != 1: k.bad(("C22",), "canary", "canary value is %s, destruction expects 1" % f.s(x.val)[:80], x.e.site)
            else: k.ok(("C22",), "canary", "canary byte is 1")
            for w in wf + df:
                pass
        if st: o.holds(("C22",), "canary", top, GS, "canary written")
    else:
        for x in fmaps: k.und(("C19",), "extra-map", "additional mapping at %s" % x.e.site); x.claimed = True
        for x in v.calls("madvise"):
            adv = const(f, x.args[2])
            if adv in (10, 18): k.bad(("C22",), "zero-inherited", "a pool without initial values is altered across fork", x.e.site); x.claimed = True
    # bitmap
    if robust:
        if len(cal_ := v.calls("calloc")) != 1: k.und(("C17",), "bitmap", "%d calloc calls" % len(cal_)) if cal_ or v.calls("malloc") else k.bad(("C17",), "bitmap", "a robust pool gets no allocation bitmap")
        else:
            x = cal_[0]; x.claimed = True
            bits = f.lshr(s, pl.item_order)
            tot = f.mul(f.mul(x.args[0], x.args[1]), f.K(8))
            o.holds(("C17", "C14"), "bitmap-size", c.NOT(f.ult(tot, bits)), c.AND(GS, x.top), "the bitmap has a bit for every item", x.e.site)
            o.holds(("C17", "C14"), "bitmap-words", c.NOT(f.ult(tot, f.mul(f.lshr(f.add(bits, f.K(63)), f.K(6)), f.K(64)))), c.AND(GS, x.top), "the bitmap is made of whole words", x.e.site)
            o.holds(("C17",), "bitmap", x.top, GS, "a bitmap is allocated")
            must("alloc_bitmap", x.res, ("C17",), "allocation bitmap")
            step(x, f.isz(x.res), "allocating the bitmap", ("C20", "C17"))
            fr = c.F
            for y in v.calls("free"):
                y.claimed = True
                if f.feasible(c.AND(GS, y.top)): k.bad(("C17", "C20"), "bitmap-freed", "the bitmap of a live range is freed", y.e.site)
                o.eq(("C20",), "fail-free", y.args[0], x.res, c.AND(GF, y.top), "frees the bitmap", y.e.site)
                fr = c.OR(fr, y.top)
            Gb = c.AND(GF, x.top, f.nz(x.res))
            if f.feasible(Gb): o.holds(("C20",), "fail-free", fr, Gb, "a failed creation frees the bitmap")
    # initialisation callback
    ic = [x for x in v.items if x.kind == "call" and x.name == "<indirect>"]
    IP = ("C24",)
    if iset:
        if not ic: k.bad(IP, "init-func", "the initialisation function is never called")
        for x in ic:
            x.claimed = True
            o.eq(IP, "init-func-priv", x.args[0], fld("attr.init_priv"), c.AND(GS, x.top), "private pointer is passed", x.e.site)
            o.eq(IP, "init-func-len", x.args[2], s, c.AND(GS, x.top), "one stride is passed", x.e.site)
            if typ or (not x.loops):
                o.eq(IP, "init-func-addr", x.args[1], B, c.AND(GS, x.top), "item area is passed", x.e.site)
                if typ: o.eq(IP, "init-func-cpu", x.args[3], f.K((1 << 32) - 1, 32), c.AND(GS, x.top), "no CPU number for a global pool", x.e.site)
                if not typ: k.bad(IP, "init-func-each", "initialisation function not called for every CPU", x.e.site)
            else:
                each_cpu(k, o, f, v, x, x.args[1], B, s, n, GS, IP, "init-func-each")
                ka = f.g.k_atom(x.loops[-1])
                cpu = x.args[3]
                e2 = f.c.apply(("tr32",), lambda p: f.g._truncp(p, 32) if hasattr(f.g, "_truncp") else p, f.c.leaf(f.c.poly(64, {(ka,): 1})))
                r1 = v.affine(x.args[1], x.loops)
                cpu_is_index(k, o, f, v, x, cpu, B, s, GS, IP)
            o.holds(IP, "init-func", x.top, GS, "initialisation function is called")
            step(x, f.nz(x.res), "the initialisation function", ("C20", "C24"))
            for y in fmaps:
                if path_between(f.g, x.e.inst, y.e.inst): k.bad(IP + ("C16",), "init-func-order", "memory is remapped after it was initialised", y.e.site)
    else:
        for x in ic: k.bad(IP, "init-func", "an initialisation function is called although none is set", x.e.site)
    # outcome
    if f.feasible(allok):
        o.holds(("C20", "C19"), "succeeds", S, allok, "creation succeeds when every step does")
    k.store(("C24",), "count", nraddr, f.add(nr, f.K(1)), cond=c.AND(S, c.NOT(dead)) if dead is not c.F else S, what="nr_ranges") if dead is c.F else count(k, o, f, v, nraddr, nr, GS, GF)

def count(k, o, f, v, nraddr, nr, GS, GF):
    c = f.c
    ms = [it for it in v.stores() if not it.loops and f.same(it.addr, nraddr, c.AND(v.G, it.top))]
    if not ms: k.bad(("C24",), "count", "created ranges are not counted") if not k.unknown_writes() else k.und(("C24",), "count"); return
    top = c.F
    for it in ms:
        it.claimed = True; top = c.OR(top, it.top)
        o.eq(("C24",), "count", it.val, f.add(nr, f.K(1)), c.AND(GS, it.top), "nr_ranges counts the new range", it.e.site)
    o.holds(("C24",), "count", top, GS, "every created range is counted", ms[0].e.site)
    if f.feasible(GF): o.holds(("C24", "C20"), "count-fail", c.NOT(top), GF, "failed creations are not counted", ms[0].e.site)

def MA_fail(f, v, m, path, dflt):
    """value recorded in the field on paths that later fail"""
    c = f.c
    off = m.o("rseq_mempool_range", path); out = None
    for it in v.stores():
        t = it.e.tag
        if t and t[0] == "rseq_mempool_range" and t[1] == off: out = it.val if out is None else c.ite(it.top, it.val, out)
    return out if out is not None else dflt

def each_cpu(k, o, f, v, it, addr, B, s, n, GS, props, rule):
    """addr = B + k*s for k = 0 .. n-1 (either direction)"""
    c = f.c
    if len(it.loops) != 1: k.und(props, rule, "nested loop"); return
    l = it.loops[0]
    if l.K is None: k.und(props, rule, "trip count unknown"); return
    K = v.R(l.K); ka = f.g.k_atom(l)
    # split the gated address
    def at(x): return f.g.subst(addr, ka, x)
    a0 = at(f.K(0)); a1 = at(f.K(1))
    st = f.sub(a1, a0)
    up = f.d.diff(st, s, c.AND(GS, it.top)) is None
    first = a0 if up else f.sub(f.add(a0, f.mul(st, f.sub(K, f.K(1)))), f.K(0))
    if not up: st = f.sub(a0, a1)
    o.eq(props, rule, first, B, c.AND(GS, it.top), "first CPU's memory", it.e.site)
    o.eq(props, rule, st, s, c.AND(GS, it.top), "distance between CPUs", it.e.site)
    o.eq(props, rule, K, n, c.AND(GS, it.top), "number of CPUs covered", it.e.site)
    for l2, x in it.its:
        d = f.d.diff(x, c.T, GS)
        if d is not None: k.und(props, rule, "conditional in loop: " + d.text())

def cpu_is_index(k, o, f, v, it, cpu, B, s, GS, props):
    c = f.c
    l = it.loops[-1]; ka = f.g.k_atom(l)
    c0 = f.g.subst(cpu, ka, f.K(0)); c1 = f.g.subst(cpu, ka, f.K(1)); c2 = f.g.subst(cpu, ka, f.K(2))
    a0 = f.g.subst(it.args[1], ka, f.K(0)); a1 = f.g.subst(it.args[1], ka, f.K(1))
    for cc_, aa in ((c0, a0), (c1, a1)):
        w = 32
        o.eq(props, "init-func-cpu", f.mul(f.sext(cc_), s), f.sub(aa, B), c.AND(GS, it.top), "CPU number passed matches the memory passed", it.e.site)

if __name__ == "__main__":
    import time, collections; t = time.time()
    rep = Report()
    run(rep)
    for k, v in rep.obl.items():
        if v[1] != "holds": print(v[1].upper(), sorted(v[0]), k, str(v[2])[:400])
    print(collections.Counter(v[1] for v in rep.obl.values()), time.time() - t)
