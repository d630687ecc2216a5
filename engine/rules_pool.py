"""Contracts of allocation and release: C14 C15 C16 C17 C18 C23 (+ part of C19, C24)."""
import mp, cc
from fa import Chk, NORETURN
from report import Report, parallel

ENOMEM, EINVAL = 12, 22
CONFIGS = [(r, ci) for r in (0, 1) for ci in (0, 1)]

def errno_addr(f): return f.c.leaf(f.c.var(64, ("fcall", "__errno_location", ())))

def after_lock(f, insts, lockaddr):
    """loads that execute after a lock call on every path (dominance)"""
    out = []
    locks = [e.inst for e in f.g.effects() if e.kind == "call" and e.name == mp.LOCK and e.args[0] is lockaddr]
    for i, n in insts:
        if any(f.g.dominates(l, i) for l in locks): out.append((i, n))
    return out

def path_between(g, a, b):
    """b may execute after a"""
    if a.block is b.block and a.idx < b.idx: return True
    return b.block.name in g.cfg.reachable(a.block.name)

def cfg_guard(f, pl, robust, cow, rg=None, poison=None):
    c = f.c
    G = c.AND(pl.robust if robust else c.NOT(pl.robust), pl.cowinit if cow else c.NOT(pl.cowinit))
    if rg is not None:
        G = c.AND(G, f.nz(rg.init) if cow else f.isz(rg.init), f.nz(rg.bitmap) if robust else f.isz(rg.bitmap))
    if poison is not None: G = c.AND(G, pl.poison_set if poison else c.NOT(pl.poison_set))
    return G

def cfgd(robust, cow, poison=None):
    d = {"robust": robust, "policy": 0 if cow else 1}
    if cow: d["type"] = 0
    if robust: d["poison_set"] = 1
    if poison is not None: d["poison_set"] = poison
    return d

def lab(robust, cow, extra=""): return ("robust" if robust else "plain") + ("+init" if cow else "+zero") + (" " + extra if extra else "")

# ------------------------------------------------------------------ bitmap obligations
def bitmap(k, f, pl, rg, off, robust, setting, props):
    """bit of item `off` flips from expected old state to new, the other state aborts"""
    c = f.c; v = k.v
    idx = f.lshr(off, pl.item_order)
    waddr = f.add(rg.bitmap, f.mul(f.lshr(idx, f.K(6)), f.K(8)))
    mask = f.shl(f.K(1), f.band(idx, f.K(63)))
    rule = "bitmap-set" if setting else "bitmap-clear"
    if not robust: return waddr
    ws = [(i, v.R(n)) for b in f.g.cfg.rpo for i in f.g.f.bmap[b].insts if i.op == "load" and f.g.width(i.ty) == 64
        for n in [f.g.val(f.g._resval(i))] if f.same_addr(v, i, waddr)]
    if not ws:
        ms = v.find_store(waddr)
        if ms or k.unknown_writes(): k.und(props, rule, "bitmap word is not read as a 64-bit word"); [setattr(m, "claimed", True) for m in ms]
        else: k.bad(props, rule, "the allocation bitmap of a robust pool is not consulted or updated")
        return waddr
    w = ws[0][1]
    m = f.band(w, mask)
    new = f.sub(f.add(w, mask), m) if setting else f.sub(w, m)
    live = f.isz(m) if setting else f.nz(m)
    # the abort condition must be exactly the complement of the live one
    G0 = v.G
    ab = c.F; sites = []
    for it, cond in v.aborts():
        if it.name != "abort": continue
        if any(x in c.deep_atoms(cond) for x in c.deep_atoms(w) - c.deep_atoms(waddr)): ab = c.OR(ab, cond); sites.append(it.e.site); it.claimed = True
    want = f.nz(m) if setting else f.isz(m)
    r2 = "double-alloc-abort" if setting else "double-free-abort"
    d = f.d.diff(ab, want, G0)
    if ab is c.F: k.bad(props, r2, "no abort depends on the allocation bit of the item")
    elif d is not None:
        if f.resolved(ab): k.bad(props, r2, "the process must end exactly when the bit is %s: %s" % ("already set" if setting else "already clear", d.text()), sites[0])
        else: k.und(props, r2, "abort condition not resolved: " + c.s(ab)[:200])
    else: k.ok(props, r2, "abort iff " + c.s(want)[:160])
    # value stored in the surviving case
    ms = v.find_store(waddr)
    for it in ms: it.claimed = True
    if not ms:
        if k.unknown_writes(): k.und(props, rule, "no store to the bitmap word recognised")
        else: k.bad(props, rule, "the allocation bit is checked but never updated")
        return waddr
    for it in ms:
        # survivors: bit in the expected old state
        d = f.d.diff(it.val, new, c.AND(v.G, it.top, live))
        if d is not None: (k.bad(props, rule, "bitmap word: " + d.text(), it.e.site) if f.resolved(it.val) else k.und(props, rule, c.s(it.val)[:200]))
        else: k.ok(props, rule, "word := %s" % c.s(new)[:160])
    G = c.F
    for it in ms: G = c.OR(G, it.top)
    d = f.d.diff(G, c.T, c.AND(v.G, live))
    if d is not None: (k.bad if f.resolved(G) else k.und)(props, rule, "bitmap update condition: " + d.text())
    return waddr

def same_addr(f, v, i, addr):
    a = v.R(f.g.val(i.args[0]))
    if a is addr: return True
    if a.b is not None and len(f.c.support(a)) > 12: return False
    # structural hint: the address must involve the bitmap base
    at = f.c.deep_atoms(addr) ; bt = f.c.deep_atoms(a)
    if not (at & bt): return False
    big = [x for x in at if f.c.alist[x][0] == "load" and f.c.names.get(x) and f.c.names[x][2] == "alloc_bitmap"]
    big2 = [x for x in bt if f.c.alist[x][0] == "load" and f.c.names.get(x) and f.c.names[x][2] == "alloc_bitmap"]
    if bool(big) != bool(big2): return False
    gd = v.R(f.g.iter_guards(i.block.name)[0][1])
    if gd is f.c.F: return False
    return f.d.feasible(f.c.AND(v.G, gd)) is not None and f.same(a, addr, f.c.AND(v.G, gd))
import fa as _fa
_fa.FA.same_addr = same_addr

def norm_differ(v, dd):
    return dd

def other_aborts(k, f, props, rule, allow=()):
    """aborts not accounted for must be infeasible"""
    n = 0
    for it, cond in k.v.aborts():
        if it.claimed or it.name != "abort": continue
        k.und(props, rule, "abort under %s at %s" % (f.s(cond)[:200], it.e.site)); n += 1
    if not n: k.ok(props, rule, "every abort is one of the prescribed ones")

# ------------------------------------------------------------------ poison checks (abort when a freed item changed)
def poison_check(k, f, pl, rg, off, cow, props, G=None):
    """abort iff some word of the freed item, on some CPU or in the initial values, is not the poison"""
    c = f.c; v = k.v
    need = [("cpus", f.add(rg.base, off), [(pl.stride, pl.ncpu)])]
    if cow: need.append(("init", f.add(rg.init, off), []))
    found = {}
    und = None
    for it, cond in v.aborts():
        if it.claimed or it.name != "abort": continue
        brks = [b for b in c.support(cond) if c.blist[b][0] == "brk"]
        last = None; rest = cond
        # the deciding break is the one taken (implied true)
        pos = [b for b, val in c.implied_literals(cond) if val and b in brks]
        if len(pos) != 1: und = (it, cond); continue
        dd = v.differ(pos[0])
        if dd is None: und = (it, cond); continue
        base, dims, ln, val, extra = dd
        rest = c.restrict(cond, pos[0], True)
        # earlier checks that did not fire may appear negated
        for b in list(c.support(rest)):
            if c.blist[b][0] == "brk": rest = c.OR(c.restrict(rest, b, True), c.restrict(rest, b, False))
        m = [n for n, eb, ed in need if len(ed) == len(dims) and f.same(base, eb, v.G)]
        it.claimed = True
        if not m:
            k.bad(props, "reuse-check", "content check looks at %s (step/count %s) instead of the item on every CPU%s" % (f.s(base)[:200], [(f.s(a)[:60], f.s(b)[:60]) for a, b in dims], " or its initial values" if cow else ""), it.e.site)
            continue
        nm = m[0]; eb, ed = [(x[1], x[2]) for x in need if x[0] == nm][0]
        probs = []
        for (s1, k1), (s2, k2) in zip(dims, ed):
            for t, a, b in (("step", s1, s2), ("count", k1, k2)):
                d = f.d.diff(a, b, v.G)
                if d: probs.append(t + ": " + d.text())
        d = f.d.diff(ln, pl.item_len, v.G)
        if d: probs.append("length: " + d.text())
        d = f.d.diff(val, pl.poison, v.G)
        if d: probs.append("value: " + d.text())
        d = f.d.diff(c.AND(rest, extra), c.T, v.G)
        if d:
            if f.resolved(c.AND(rest, extra)): probs.append("condition: " + d.text())
            else: k.und(props, "reuse-check-" + nm, f.s(rest)[:200]); found[nm] = 1; continue
        if probs: k.bad(props, "reuse-check-" + nm, "; ".join(probs), it.e.site)
        else: k.ok(props, "reuse-check-" + nm, "abort when a word of the freed item is not the poison")
        found[nm] = 1
    for nm, eb, ed in need:
        if nm in found: continue
        if und is not None: k.und(props, "reuse-check-" + nm, "abort condition not understood: %s" % f.s(und[1])[:200])
        else: k.bad(props, "reuse-check-" + nm, "a recycled item is handed out without checking its poison (%s)" % nm)
    return und

def opaque_reads(k): return False

# ------------------------------------------------------------------ free
def rule_free(rep, m):
    fn = "librseq_mempool_percpu_free"
    rep.analysed(fn)
    f = m.fa(fn, {0: lambda e: m.item(e), 1: lambda e: e.cfg["stride"]})
    c = f.c
    p, s = f.arg(0), f.arg(1)
    off = f.band(p, f.sub(s, f.K(1)))
    R = f.sub(f.sub(p, off), f.K(m.RS))
    P = f.fld(R, "rseq_mempool_range", "pool")
    pl = m.P(f, P); rg = pl.rng(R)
    heads = after_lock(f, f.loads(pl.head_addr), pl.lock)
    allheads = f.loads(pl.head_addr)
    sub = f.unify([n for i, n in allheads]) if allheads else None
    for robust, cow in CONFIGS:
        for poison in ((1,) if robust else (0, 1)):
            G = cfg_guard(f, pl, robust, cow, rg, poison)
            v = f.view(G, sub, cfgd(robust, cow, poison))
            k = Chk(rep, v, lab(robust, cow, "poison" if poison else ""))
            k.known_calls = {m.creator}
            node = v.R(f.add(p, pl.delta()))
            if not allheads:
                k.bad(("C15", "C14"), "free-link", "the free list head is never read") if not k.unknown_writes() else k.und(("C15",), "free-link", "head load not recognised")
            else:
                H = v.R(allheads[0][1])
                k.store(("C15", "C14", "C18"), "free-link", node, H, what="link word of the freed item")
                k.store(("C15", "C14"), "free-head", pl.head_addr, node, what="free list head")
            bitmap(k, f, pl, rg, off, robust, False, ("C17",))
            if poison:
                a1 = k.sweep(("C18", "C17"), "poison-cpus", f.add(rg.base, off), [(pl.stride, pl.ncpu)], pl.item_len, pl.poison, what="freed item on every CPU")
                a2 = k.sweep(("C18", "C17"), "poison-init", f.add(rg.init, off), [], pl.item_len, pl.poison, what="freed item in the initial values") if cow else []
                # the link must survive the fill
                links = v.find_store(node)
                for a in (a1 or []) + (a2 or []):
                    for l in links:
                        if not robust and path_between(f.g, l.e.inst, a.item.e.inst):
                            k.bad(("C15", "C18", "C14"), "poison-before-link", "the fill may overwrite the free-list link stored at %s" % l.e.site, a.item.e.site)
                        else: k.ok(("C15", "C18"), "poison-before-link", "fill precedes link")
                    for u in v.calls(mp.UNLOCK):
                        if path_between(f.g, u.e.inst, a.item.e.inst): k.bad(("C18", "C13"), "poison-locked", "the item is poisoned after the lock is dropped", a.item.e.site)
                        else: k.ok(("C18", "C13"), "poison-locked", "")
            k.rest(("C15", "C14", "C18"), "free-other-writes")
            other_aborts(k, f, ("C17",), "free-aborts")

# ------------------------------------------------------------------ allocation
ALLOC = {"rseq_mempool_percpu_malloc": "plain", "rseq_mempool_percpu_zmalloc": "zero", "rseq_mempool_percpu_malloc_init": "init"}

def rule_malloc(rep, m, fn, kind, only=None):
    rep.analysed(fn)
    hints = {0: lambda e: e.poolptr}
    f = m.fa(fn, hints)
    f.d.hints[("arg", 1)] = lambda e: e.r.choice((0, e.fresh_ptr(), e.fresh_ptr(), e.fresh_ptr()))
    f.d.hints[("arg", 2)] = lambda e: e.r.choice((0, 1, 8, e.cfg["item_len"], e.cfg["item_len"] - 1, e.cfg["item_len"] + 1, e.r.getrandbits(20), e.r.randrange(e.cfg["item_len"] + 1)))
    c = f.c
    P = f.arg(0)
    pl = m.P(f, P)
    if kind == "init":
        src, ln = f.arg(1), f.arg(2)
        toolong = f.ult(pl.item_len, ln)
        v = f.view(toolong, None, {})
        k = Chk(rep, v, "initial content longer than the item"); k.known_calls = set()
        pr = ("C23",)
        ret = v.R(f.g.ret_value())
        d = f.d.diff(ret, f.K(0), toolong)
        k.bad(pr, "einval-ret", "must return NULL: " + d.text()) if d else k.ok(pr, "einval-ret", "returns NULL")
        k.store(pr, "einval-errno", errno_addr(f), f.K(EINVAL, 32), what="errno", width=4)
        k.rest(pr, "einval-noeffect")
        for x in v.calls(mp.LOCK, mp.UNLOCK): pass
        if m.creator and v.calls(m.creator): k.bad(pr, "einval-noeffect", "a range may be created for a refused request", v.calls(m.creator)[0].e.site)
        base_guard = c.NOT(toolong)
    else: base_guard = c.T
    heads = f.loads(pl.head_addr)
    firsts = f.loads(pl.list)
    H = heads[0][1] if heads else None
    first = firsts[0][1] if firsts else None
    sub1 = f.unify([n for i, n in heads]) if heads else (lambda x: x)
    sub2 = f.unify([n for i, n in firsts]) if firsts else (lambda x: x)
    creates = [e for e in f.g.effects() if e.kind == "call" and e.name == m.creator]
    if H is None or first is None or not creates:
        for pid in ("C14", "C15", "C16", "C17"): rep.und((pid,), "alloc-shape", fn, "free list head, range list or range creation not recognised")
        return
    node_off = m.o("rseq_mempool_range", "node")
    firstR = f.sub(first, f.K(node_off)) if node_off else first
    nuaddr = f.faddr(firstR, "rseq_mempool_range", "next_unused")
    # next_unused loads of the first range (all equal until stored)
    nus = f.loads(nuaddr)
    res = creates[0].res
    sub3 = f.unify([e.res for e in creates])
    def sub(x):
        x = sub1(sub2(sub3(x)))
        return sub4(x)
    # loads of next_unused through gated addresses: unify with the direct one
    def nu_all():
        """atoms of loads of any next_unused field"""
        out = {}
        for b in f.g.cfg.rpo:
            for i in f.g.f.bmap[b].insts:
                if i.op == "load" and m.mod.tbaa_tag(i.tbaa) and m.mod.tbaa_tag(i.tbaa)[:2] == ("rseq_mempool_range", m.o("rseq_mempool_range", "next_unused")):
                    for l in c.leaves(sub2(sub3(f.g.val(f.g._resval(i))))):
                        a = c.single(l)
                        if a is not None and c.alist[a][0] == "load": out.setdefault(c.alist[a][1].id, []).append(a)
        return out
    nul = nu_all()
    sub4l = []
    for ad, ats in nul.items():
        ats = sorted(set(ats))
        for a in ats[1:]: sub4l.append((a, c.leaf(c.poly(64, {(ats[0],): 1}))))
    def sub4(x):
        for a, r in sub4l: x = f.g.subst(x, a, r)
        return x
    def nuof(R):
        ad = f.faddr(R, "rseq_mempool_range", "next_unused")
        if ad.b is not None: return None
        ats = nul.get(ad.leaf.id)
        return c.leaf(c.poly(64, {(min(ats),): 1})) if ats else None
    NU1 = nuof(firstR); NU2 = nuof(res)
    empty = f.eq(first, pl.list)
    popped = f.nz(H)
    if NU1 is None:
        for pid in ("C14", "C16"): rep.und((pid,), "alloc-shape", fn, "use of next_unused of the first range not recognised")
        return
    noroom = f.ult(pl.stride, f.add(NU1, pl.item_len))
    for robust, cow in (CONFIGS if only is None else [only]):
        base = c.AND(base_guard, cfg_guard(f, pl, robust, cow))
        cf = cfgd(robust, cow)
        def mkview(G, rg, label, sub=sub):
            if rg is not None: G = c.AND(G, f.nz(rg.init) if cow else f.isz(rg.init), f.nz(rg.bitmap) if robust else f.isz(rg.bitmap))
            v = f.view(G, sub, cf)
            k = Chk(rep, v, lab(robust, cow, label)); k.known_calls = {m.creator}
            return v, k
        # ---- recycled item
        Hn = sub(H)
        def recycled():
            ptr = f.sub(Hn, c_restrict(f, pl.delta(), base))
            off = f.band(ptr, f.sub(pl.stride, f.K(1)))
            R = f.sub(f.sub(ptr, off), f.K(m.RS))
            rg = pl.rng(R)
            nx = f.loads(Hn)
            un = f.unify([n for i, n in nx]) if len(nx) > 1 else None      # the link may be read at several places (none after it is overwritten, see below)
            v, k = mkview(c.AND(base, popped), rg, "recycled", *((lambda x: un(sub(x)),) if un else ()))
            nxt = [un(n) if un else n for i, n in nx]
            if nxt: k.store(("C14", "C15"), "pop-head", pl.head_addr, v.R(nxt[0]), what="free list head")
            else:
                ms = v.find_store(pl.head_addr)
                if not ms: k.bad(("C14", "C15"), "pop-head", "an item is taken from the free list without unlinking it") if not k.unknown_writes() else k.und(("C14",), "pop-head")
                else: k.und(("C14", "C15"), "pop-head", "next link not recognised: " + f.s(ms[0].val)[:200])
                for x in ms: x.claimed = True
            ret_is(k, f, v, ("C14", "C15"), "pop-result", ptr)
            bitmap(k, f, pl, rg, off, robust, True, ("C17",))
            if robust: poison_check(k, f, pl, rg, off, cow, ("C17",))
            content(k, f, pl, rg, off, cow, kind)
            # the link must be read before the content is overwritten
            if nxt and not robust:
                for a in k.all_areas():
                    if a.item.claimed and a.item.kind in ("store", "call") and any(path_between(f.g, a.item.e.inst, li) for li, n in nx) and (a.item.loops or a.item.kind == "call"):
                        k.bad(("C14", "C15"), "pop-link-intact", "the item is overwritten before its free-list link is read", a.item.e.site)
            k.rest(("C14", "C15"), "pop-other-writes")
            other_aborts(k, f, ("C17",), "pop-aborts")
            if v.calls(m.creator): k.bad(("C14", "C15", "C24"), "pop-no-growth", "a range is created although the free list is not empty", v.calls(m.creator)[0].e.site)
        guarded(rep, fn, recycled, ("C14", "C15", "C16", "C17"), "pop")
        # ---- never used item of the first range
        def fresh():
            R = sub(firstR); rg = pl.rng(R)
            v, k = mkview(c.AND(base, c.NOT(popped), c.NOT(empty), c.NOT(noroom)), rg, "unused")
            bump(k, f, pl, rg, R, NU1, robust, cow, kind, m, v)
            if v.calls(m.creator): k.bad(("C14", "C24"), "room-no-growth", "a range is created although the first one has room", v.calls(m.creator)[0].e.site)
            else: k.ok(("C14", "C24"), "room-no-growth", "")
        guarded(rep, fn, fresh, ("C14", "C16", "C17"), "unused")
        # ---- new range
        for nm, cond in (("new range, list empty", empty), ("new range, first full", c.AND(c.NOT(empty), noroom))):
            def grow():
                R = sub(res); rg = pl.rng(R)
                v, k = mkview(c.AND(base, c.NOT(popped), cond, f.nz(res)), rg, nm)
                cs = v.calls(m.creator)
                if not cs: k.bad(("C14",), "grow", "no range is created although there is no room: allocations would overlap or overrun"); return
                for x in cs:
                    d = f.d.diff(x.args[0], P, v.G)
                    if d: k.bad(("C14",), "grow", "range created for another pool: " + d.text(), x.e.site)
                    else: k.ok(("C14", "C24"), "grow", "range created for this pool")
                if NU2 is None: k.und(("C14",), "grow", "use of the new range's next_unused not recognised"); return
                listadd(k, f, pl, R, first, m, v)
                bump(k, f, pl, rg, R, NU2, robust, cow, kind, m, v)
            guarded(rep, fn, grow, ("C14", "C16", "C17"), nm)
            def fail():
                v, k = mkview(c.AND(base, c.NOT(popped), cond, f.isz(res)), None, nm + " fails")
                pr = ("C20", "C14")
                ret_is(k, f, v, pr, "fail-ret", f.K(0))
                k.store(("C20",), "fail-errno", errno_addr(f), f.K(ENOMEM, 32), what="errno", width=4)
                k.rest(("C20", "C14"), "fail-noeffect")
            guarded(rep, fn, fail, ("C20",), nm + " fails")

def guarded(rep, fn, fun, props, what):
    import vg
    try: fun()
    except vg.TooBig: rep.und(props, "size", fn + " " + what, "decision diagram limit")

def c_restrict(f, n, G):
    for b, v in f.c.implied_literals(G): n = f.c.restrict(n, b, v)
    return n

def ret_is(k, f, v, props, rule, exp):
    ret = v.R(f.g.ret_value())
    d = f.d.diff(ret, exp, v.G)
    if d is None: k.ok(props, rule, "returns " + f.s(exp)[:160])
    elif f.resolved(ret) or f.resolved(f.c.leaf(d.a)): k.bad(props, rule, "returned value: " + d.text(), next((i.e.site for i in v.items if i.kind == "ret"), None))
    else: k.und(props, rule, f.s(ret)[:200])

def bump(k, f, pl, rg, R, NU, robust, cow, kind, m, v):
    c = f.c
    k.store(("C14",), "bump", f.faddr(R, "rseq_mempool_range", "next_unused"), f.add(NU, pl.item_len), what="next_unused of the range")
    ret_is(k, f, v, ("C14",), "bump-result", f.add(rg.base, NU))
    bitmap(k, f, pl, rg, NU, robust, True, ("C17",))
    content(k, f, pl, rg, NU, cow, kind)
    k.nostore(("C14", "C15"), "bump-freelist", pl.head_addr, "free list head") if v.find_store(pl.head_addr) else None
    k.rest(("C14",), "bump-other-writes")
    other_aborts(k, f, ("C17",), "bump-aborts")

def listadd(k, f, pl, R, first, m, v):
    """the new range becomes the first of the list (unless the creator does it itself)"""
    node = f.faddr(R, "rseq_mempool_range", "node")
    pr = ("C14", "C21")
    if m.creator_links: return
    k.store(pr, "range-linked", pl.list, node, what="head of the range list")
    k.store(pr, "range-linked-next", node, v.R(first), what="next link of the new range")
    k.store(pr, "range-linked-prev", f.add(node, f.K(8)), pl.list, what="prev link of the new range")
    k.store(pr, "range-linked-back", f.add(v.R(first), f.K(8)), node, what="prev link of the former first range")

def content(k, f, pl, rg, off, cow, kind):
    """zeroed / initialised content on every CPU and in the initial values"""
    if kind == "zero":
        k.sweep(("C16",), "zero-cpus", f.add(rg.base, off), [(pl.stride, pl.ncpu)], pl.item_len, f.K(0), what="item on every CPU")
        if cow: k.sweep(("C16",), "zero-init", f.add(rg.init, off), [], pl.item_len, f.K(0), what="item in the initial values")
    elif kind == "init":
        pass
    if kind == "init":
        src, ln = f.arg(1), f.arg(2)
        v0 = k.v
        # content is only required when the caller gave some
        G1 = f.c.AND(v0.G, f.nz(src))
        v = f.view(G1, v0.sub, f.d.cfg)
        k2 = Chk(k.rep, v, k.label + " content"); k2.known_calls = k.known_calls
        k2.sweep(("C16",), "init-cpus", f.add(rg.base, off), [(pl.stride, pl.ncpu)], ln, src, kind="copy", what="item on every CPU")
        if cow: k2.sweep(("C16",), "init-init", f.add(rg.init, off), [], ln, src, kind="copy", what="item in the initial values")
        cl = {id(i.e) for i in v.items if i.claimed}
        for i in v0.items:
            if id(i.e) in cl: i.claimed = True

def links(m):
    """does the creator link the range itself?"""
    m.creator_links = False
    if m.creator:
        fa = m.fa(m.creator, {0: lambda e: e.poolptr})
        la = fa.faddr(fa.arg(0), "rseq_mempool", "range_list")
        m.creator_links = any(e.kind == "store" and e.addr is la for e in fa.g.effects())

def run(rep, m=None):
    m = m or mp.MP()
    links(m)
    parallel(rep, [lambda r: rule_free(r, m)] + [lambda r, fn=fn, kd=kd, cf=cf: rule_malloc(r, m, fn, kd, cf) for fn, kd in ALLOC.items() for cf in CONFIGS])
    return m

if __name__ == "__main__":
    import time; t = time.time()
    rep = Report()
    run(rep)
    for k, v in rep.obl.items():
        if v[1] != "holds": print(v[1].upper(), sorted(v[0]), k, str(v[2])[:500])
    import collections
    print(collections.Counter(v[1] for v in rep.obl.values()), time.time() - t)
