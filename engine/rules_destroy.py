"""Contract of pool destruction: C21 C22 C17."""
import mp, vg
from fa import Chk
from report import Report, parallel
from rules_pool import path_between, guarded, cfgd, cfg_guard, lab
from rules_range import Ob, const

import fa as _fa
FN = "rseq_mempool_destroy"
SHARES = "mp_c"

# ------------------------------------------------------------------ list walks
class Walk:
    """a loop whose cursor visits the elements of a circular or NULL-terminated list"""
    def __init__(self, l, E, atoms): self.l, self.E, self.atoms = l, E, atoms

def phis(g, l): return [i for i in g.f.bmap[l.header].insts if i.op == "phi"]

def phi_parts(g, l, d):
    """(initial value, value for the next iteration) of a header phi"""
    out = [(v, p) for v, p in d.extra if p not in l.blocks]; inn = [(v, p) for v, p in d.extra if p in l.blocks and p not in g.cfg.doomed]
    i0 = g._gate(out, l.header, l) if out else None
    n0 = None
    for v, p in inn:
        x = g.val(v)
        if n0 is not None and x is not n0: return i0, None
        n0 = x
    return i0, n0

def load_addr(c, n):
    """address poly when n is a single load"""
    if n is None or n.b is not None or isinstance(n.leaf, bool): return None
    a = c.single(n.leaf)
    if a is None or c.alist[a][0] != "load": return None
    return c.leaf(c.alist[a][1])

def walks(f, head, offs=(0, 8)):
    """loops that start at the element the link word at `head` names and follow the link until None/head"""
    g, c = f.g, f.c; out = {}
    for l in g.cfg.loops.values():
        for off in offs:
            h = f.add(head, f.K(off))
            ph = {d.res: d for d in phis(g, l) if d.ty.kind == "ptr"}
            for r, d in ph.items():
                mu = g.val(g._resval(d)); i0, n0 = phi_parts(g, l, d)
                if i0 is None or n0 is None: continue
                ok = None
                nx = f.add(mu, f.K(off))
                if load_addr(c, i0) is h and load_addr(c, n0) is nx: ok = mu                       # cursor = element
                elif i0 is h and n0.b is None:                                                    # cursor = address of the link
                    a = load_addr(c, n0)
                    if a is None:
                        a2 = load_addr(c, f.sub(n0, f.K(off)))
                        if a2 is mu: ok = f.sub(n0, f.K(off))
                    elif a is mu and off == 0: ok = n0
                elif load_addr(c, i0) is h:                                                       # cursor, successor read ahead
                    for r2, d2 in ph.items():
                        if r2 == r: continue
                        m2 = g.val(g._resval(d2)); j0, j1 = phi_parts(g, l, d2)
                        if n0 is m2 and load_addr(c, j0) is f.add(i0, f.K(off)) and load_addr(c, j1) is f.add(m2, f.K(off)): ok = mu
                if ok is not None:
                    e = c.single(ok.leaf)
                    out[l.id] = Walk(l, ok, {e} | {a for a in (c.single(mu.leaf),) if a is not None})
    return out

def counter_lits(g, l):
    if l.counter is None: return []
    c = g.c; u, s = l.counter; t = g.f.bmap[u].insts[-1]
    cd = g.val(t.args[0]); cont = cd if t.extra[1] == s else c.NOT(cd)
    return c.implied_literals(cont)

def ends_at(f, w, stop):
    """the loop's counting exit is taken exactly when the cursor equals stop"""
    g, c = f.g, f.c
    ls = counter_lits(g, w.l)
    want = f.eq(w.E, stop)
    for b, v in ls:
        if want.b == b and (want.hi is c.T) != v and len(ls) == 1: return True
    # non-counting form: an exit edge whose condition is that literal
    for e in w.l.exits:
        cd = g._region(w.l, w.l.header).get(("e",) + e)
        if cd is want: return True
    return False

def level(v, b):
    """(loop, in-iteration condition) behind a 'left the loop early' literal"""
    g, c = v.g, v.c
    bi = g.break_info(b)
    if bi is None: return None
    l, e, cd = bi
    for x, val in counter_lits(g, l): cd = c.restrict(cd, x, val)
    return l, e, v.R(g.simp(cd))

def drop_neg(c, n, keep=()):
    """forget literals saying that an earlier check did not fire"""
    pos = {b for b, v in c.implied_literals(n) if v}
    for b in list(c.support(n)):
        if c.blist[b][0] == "brk" and b not in pos and b not in keep: n = c.OR(c.restrict(n, b, True), c.restrict(n, b, False))
    return n

class Unclear(Exception): pass

def describe(v, cond):
    """chain of (loop, condition minus the next loop's literal) from the outside in"""
    c = v.c; chain = []
    cond = drop_neg(c, cond)
    while True:
        ps = [b for b, val in c.implied_literals(cond) if val and c.blist[b][0] == "brk"]
        if len(ps) > 1: raise Unclear("two early exits")
        if not ps: return chain, cond
        rest = c.restrict(cond, ps[0], True)
        lv = level(v, ps[0])
        if lv is None: raise Unclear("exit")
        chain.append((lv[0], lv[1], rest)); cond = drop_neg(c, lv[2])

# ------------------------------------------------------------------ destroy
def run(rep, m=None):
    m = m or mp.MP("c")
    if FN not in m.mod.funcs: rep.und(("C21", "C22", "C17"), "present", FN, "function not found"); return m
    f = m.fa(FN, {0: lambda e: e.poolptr})
    c, g = f.c, f.g
    P = f.arg(0); pl = m.P(f, P)
    T = ("C21",)
    def null():
        v = f.view(f.isz(P), None, cfgd(0, 0)); k = Chk(rep, v, "null pool"); o = Ob(k)
        o.eq(T, "null-ret", v.R(g.ret_value()), f.K(0, 32), v.G, "destroying NULL returns 0")
        for it in v.items:
            if it.kind in ("store", "call"): k.bad(T, "null-effect", "destroying NULL has an effect", it.e.site)
        for it, cond in v.aborts(): k.bad(T + ("C17",), "null-abort", "destroying NULL ends the process", it.e.site)
        if not [i for i in g.effects() if i.kind == "call"]: k.und(T, "null", "")
    guarded(rep, FN, null, T, "null")
    # one value per memory word for the words only the loop itself changes
    heads = [n for i, n in f.loads(pl.list)]
    firsts = [n for i, n in f.loads(pl.list) if not g.loops_of(i.block.name)]
    page = c.leaf(c.var(64, ("page",)))
    unm = None
    try:
        ua = f.faddr(P, "rseq_mempool", "range_unmapped")
        us = [n for i, n in f.loads(ua, 8)]
        if us: unm = f.nz(us[0])
    except Exception: ua = None
    jobs = []
    for robust in (0, 1):
        for sc in ("zero", "empty", "parent", "child"):
            jobs.append(lambda rp, r=robust, s=sc: guarded(rp, FN, lambda: scenario(rp, m, f, pl, P, r, s, unm), ("C21", "C22", "C17"), s))
    parallel(rep, jobs)
    if unm is not None: flag_rule(rep, m, f, ua)
    return m

def canary(f, pl, first):
    """1-byte loads of the first byte of the first range's header"""
    c, g = f.c, f.g; page = c.leaf(c.var(64, ("page",)))
    exp = f.sub(f.sub(first, f.band(first, f.sub(page, f.K(1)))), page)
    exps = [exp, f.fld(first, "rseq_mempool_range", "header"), f.fld(first, "rseq_mempool_range", "mmap_addr")]
    out = []; odd = []
    for b in g.cfg.rpo:
        for i in g.f.bmap[b].insts:
            if i.op == "load" and g.width(i.ty) == 8:
                a = g.val(i.args[0])
                if any(a is x for x in exps) or (exps[0].b is None and f.same(a, exps[0], c.AND(f.nz(P_(f)), f.NOT(f.eq(first, pl.list))))): out.append((i, g.val(g._resval(i))))
                else: odd.append((i, a))
    return out, odd

def P_(f): return f.arg(0)

def scenario(rep, m, f, pl, P, robust, sc, unm):
    c, g = f.c, f.g
    page = c.leaf(c.var(64, ("page",)))
    T = ("C21",)
    cow = sc != "zero"
    cf = cfgd(robust, cow)
    f.d.cfg = cf
    G = c.AND(f.nz(P), cfg_guard(f, pl, robust, cow))
    if unm is not None: G = c.AND(G, c.NOT(unm))
    firsts = [n for i, n in f.loads(pl.list) if not g.loops_of(i.block.name)]
    first = firsts[0] if firsts else None
    sub = None
    # the list is not changed before the release loop: earlier readings of its first element agree
    rel = [e for e in g.effects() if e.kind == "call" and e.name == "munmap"]
    early = [n for i, n in f.loads(pl.list) if rel and not any(path_between(g, e.inst, i) for e in rel) and not any(s.kind == "store" and path_between(g, s.inst, i) for s in g.effects() if s.kind == "store" and s.addr is pl.list)]
    if len(early) > 1: sub = f.unify(early); first = early[0]
    lb = lab(robust, cow, sc)
    k0 = Chk(rep, f.view(G, sub, cf), lb)
    if cow:
        if first is None: k0.und(("C22",), "child-detection", "first range not read"); return
        cans, odd = canary(f, pl, first)
        if sc == "empty": G = c.AND(G, f.eq(first, pl.list))
        else:
            G = c.AND(G, f.NOT(f.eq(first, pl.list)))
            if not cans:
                if not odd: k0.bad(("C22", "C21"), "child-detection", "destroy does not look at the header's first byte: it cannot tell that it runs in a forked child")
                else: k0.und(("C22",), "child-detection", "byte read at %s" % f.s(odd[0][1])[:200])
                return
            k0.ok(("C22",), "child-detection", "the first byte of the header tells parent from child")
            for i, n in cans: G = c.AND(G, f.eq(n, f.K(1, 8)) if sc == "parent" else f.isz(n))
    v = f.view(G, sub, cf)
    k = Chk(rep, v, lb); o = Ob(k)
    W = walks(f, pl.list)
    release(k, o, m, f, v, pl, P, robust, cow, sc, W, G)
    aborts(k, o, m, f, v, pl, P, robust, cow, sc, W, G)
    if sc == "child": untouched(k, m, f, v, pl, W, G)

def rfield(f, m, n):
    """(field path, range term) when n is a field of a range structure"""
    c = f.c
    if n is None or n.b is not None or isinstance(n.leaf, bool): return None
    a = c.single(n.leaf)
    if a is None or c.alist[a][0] != "load" or not c.names.get(a): return None
    nm = c.names[a]
    if nm[0] != "rseq_mempool_range": return None
    return nm[2], f.sub(c.leaf(c.alist[a][1]), f.K(m.o("rseq_mempool_range", nm[2])))

def release(k, o, m, f, v, pl, P, robust, cow, sc, W, G):
    c, g = f.c, f.g; T = ("C21",); page = c.leaf(c.var(64, ("page",)))
    TT = ("C21", "C22") if cow else ("C21",)
    mu = [it for it in v.calls("munmap")]
    if not mu:
        if any(e.kind == "call" and e.name == "munmap" for e in g.effects()): k.bad(TT, "unmap", "no range is unmapped in this case")
        else: k.und(TT, "unmap", "no munmap call found")
        return
    L = None
    for it in mu:
        if not it.loops: k.und(TT, "unmap", "munmap outside the loop over the ranges at %s" % it.e.site); return
        L = it.loops[0]
        if L.id not in W: k.und(TT, "unmap", "loop around %s not recognised as a walk of the range list" % it.e.site); return
    w = W[L.id]
    if len({it.loops[0].id for it in mu}) != 1: k.und(TT, "unmap", "several loops unmap ranges"); return
    if not ends_at(f, w, pl.list): k.und(TT, "unmap-all", "end of the walk not recognised"); return
    k.ok(TT, "unmap-all", "the loop visits every range")
    # what is unmapped, once per range
    cov = c.F; okm = []
    for it in mu:
        gd = c.AND(*[x for l, x in it.its]) if it.its else c.T
        if it.top is not c.T: gd = c.AND(gd, it.top)
        a0, a1 = it.args[0], it.args[1]
        x = rfield(f, m, a0)
        exp = (("header",), f.mul(page, f.K(2))) if sc == "child" else (("mmap_addr", "header"), None)
        if x is None or x[1] is not w.E:
            k.und(TT, "unmap-address", "address %s" % f.s(a0)[:160]); return
        elen = f.mul(page, f.K(2)) if sc == "child" else f.fld(w.E, "rseq_mempool_range", "mmap_len")
        addr_ok = x[0] in ("header", "mmap_addr")
        if not addr_ok: k.bad(TT, "unmap-address", "unmaps from field '%s' of the range" % x[0], it.e.site)
        else: k.ok(TT, "unmap-address", "%s of the range" % x[0])
        d = f.d.diff(a1, elen, c.AND(v.G, gd)); tx = "two header pages only (the rest was not inherited)" if sc == "child" else "whole mapped extent is unmapped"
        if d is None: k.ok(TT, "unmap-length", "the " + tx)
        elif f.resolved2(a1) and not any(c.alist[x][0] in _fa.UNRES and x not in w.atoms for x in c.deep_atoms(a1)): k.bad(TT, "unmap-length", "the %s: %s" % (tx, d.text()), it.e.site)
        else: k.und(TT, "unmap-length", f.s(a1)[:160])
        cov = c.OR(cov, gd)
    d = f.d.diff(cov, c.T, v.G)
    if d is None: k.ok(TT, "unmap-each", "each range is unmapped")
    elif f.resolved(cov): k.bad(TT, "unmap-each", "a range is not unmapped when %s" % d.text("unmapped", "required"), mu[0].e.site)
    else: k.und(TT, "unmap-each", f.s(cov)[:200])
    for i, a in enumerate(mu):
        for b in mu[i + 1:]:
            ga = c.AND(*[x for l, x in a.its]); gb = c.AND(*[x for l, x in b.its])
            if f.feasible(c.AND(v.G, ga, gb)): k.bad(TT, "unmap-once", "a range may be unmapped twice", b.e.site)
    # failure of munmap leaves the loop
    fail = c.F
    for it in mu: fail = c.OR(fail, c.AND(*[x for l, x in it.its], f.nz(it.res) if not isinstance(it.res, type(None)) else c.F))
    brk = []
    for e in L.exits:
        if e == L.counter or e[1] in g.cfg.doomed: continue
        b = c.blist.index(("brk", g.f.name, (L.id,) + e)) if ("brk", g.f.name, (L.id,) + e) in c.blist else None
        if b is None: continue
        lv = level(v, b)
        if lv[2] is c.F or not f.feasible(c.AND(v.G, drop_neg(c, lv[2]))): continue
        brk.append((b, drop_neg(c, lv[2]), e))
    rv = v.R(g.ret_value())
    if not brk:
        vals = {const(f, c.leaf(x)) if not isinstance(x, bool) else None for x in c.leaves(rv)}
        if vals == {0}: k.bad(T, "unmap-failure", "destroy returns 0 even when a range could not be unmapped", mu[0].e.site)
        else: k.und(T, "unmap-failure", "returned value %s" % f.s(rv)[:200])
        return
    if len(brk) > 1: k.und(T, "unmap-failure", "several ways out of the loop"); return
    b, cd, e = brk[0]
    d = f.d.diff(cd, fail, v.G)
    if d is None: k.ok(T, "unmap-failure", "stops exactly when munmap fails")
    elif f.resolved(cd): k.bad(T, "unmap-failure", "the loop over the ranges stops under the wrong condition: %s" % d.text("stops", "munmap failed"), mu[0].e.site)
    else: k.und(T, "unmap-failure", f.s(cd)[:200])
    FAIL = c.node(b, c.T, c.F); OK = c.NOT(FAIL)
    for nm, cond, val in (("failure", FAIL, (1 << 32) - 1), ("success", OK, 0)):
        r = c.restrict(rv, b, nm == "failure")
        if r.b is None and not isinstance(r.leaf, bool):
            cv = c.cval(r.leaf)
            if cv is None and nm == "failure" and any(r is it.res for it in mu): k.ok(T, "ret-" + nm, "munmap's own failure value")
            elif cv is None: k.und(T, "ret-" + nm, f.s(r)[:100])
            elif (cv == 0) != (nm == "success"): k.bad(T, "ret-" + nm, "returns %d after %s" % (cv - (1 << 32) if cv >> 31 else cv, "a range could not be unmapped" if nm == "failure" else "complete destruction"), mu[0].e.site)
            else: k.ok(T, "ret-" + nm, "")
        elif nm == "failure" and r.b is None: k.und(T, "ret-" + nm, f.s(r)[:100])
        else:
            # the result may be munmap's own -1
            d = f.d.diff(r, f.K(val, 32), c.AND(v.G, fail))
            k.ok(T, "ret-" + nm, "") if d is None else k.und(T, "ret-" + nm, f.s(r)[:100])
    # final releases
    name = f.fld(P, "rseq_mempool", "name")
    for what, call, arg, pre in (("lock", "pthread_mutex_destroy", pl.lock, c.T), ("name", "free", name, f.nz(name)), ("pool", "free", P, c.T)):
        hits = [it for it in v.calls(call) if it.args and it.args[0] is arg]
        inl = [it for it in hits if it.loops]
        if inl: k.und(T, "free-" + what, "inside a loop"); continue
        if not hits:
            oth = [it for it in v.calls(call) if it.args and not f.resolved(it.args[0]) and not it.loops]
            if oth or what == "lock" and any(it.kind == "call" and it.name not in ("free", "munmap", "fprintf") and not it.name.startswith("llvm") for it in v.items): k.und(T, "free-" + what, "not recognised")
            else: k.bad(T, "free-" + what, "the %s is not released" % what)
            continue
        cond = c.F
        for it in hits:
            it.claimed = True
            if f.feasible(c.AND(v.G, cond, it.top)): k.bad(T, "free-" + what, "the %s is released twice" % what, it.e.site)
            cond = c.OR(cond, it.top)
        bad1 = c.AND(cond, FAIL); bad1 = c.restrict(bad1, b, True)
        if c.restrict(cond, b, True) is not c.F and f.feasible(c.AND(v.G, c.restrict(cond, b, True))): k.bad(T, "free-" + what, "the %s is released although destroy fails and the caller may retry" % what, hits[0].e.site)
        d = f.d.diff(c.restrict(cond, b, False), c.T, c.AND(v.G, pre))
        if d is None: k.ok(T, "free-" + what, "released once")
        elif f.resolved(c.restrict(cond, b, False)): k.bad(T, "free-" + what, "the %s is not released when %s" % (what, d.text("released", "required")), hits[0].e.site)
        else: k.und(T, "free-" + what, f.s(cond)[:200])
    # nothing uses the pool after it is freed
    pa = c.single(P.leaf)
    fr = [it for it in v.calls("free") if it.args and it.args[0] is P and not it.loops]
    for it in fr:
        for bb in g.cfg.rpo:
            for i in g.f.bmap[bb].insts:
                if i.op in ("load", "store") or i.op == "call" and g.callee(i) in ("free", "pthread_mutex_destroy", "munmap"):
                    if i is it.e.inst: continue
                    ad = g.val(i.args[1] if i.op == "store" else i.args[0]) if i.args else None
                    if ad is None or pa not in c.deep_atoms(ad): continue
                    if i.op == "call" and ad is not P and pa not in [a for a in c.atoms_of(ad.leaf)] if ad.b is None and not isinstance(ad.leaf, bool) else False: pass
                    if path_between(g, it.e.inst, i) and i.op != "call": k.bad(T, "use-after-free", "the pool is used after it was freed", g.site(i)); break
    # tracking memory
    ba = f.faddr(w.E, "rseq_mempool_range", "alloc_bitmap")
    bms = [n for i, n in f.loads(ba)]
    bm = bms[0] if bms else f.fld(w.E, "rseq_mempool_range", "alloc_bitmap")
    fb = [it for it in v.calls("free") if it.args and it.loops and rfield(f, m, it.args[0]) and rfield(f, m, it.args[0])[0] == "alloc_bitmap"]
    GB = c.AND(v.G, f.nz(bm))
    if robust:
        mine = [it for it in fb if rfield(f, m, it.args[0])[1] is w.E and it.loops[0] is L]
        if not mine:
            if any(it.loops and it.args and not f.resolved(it.args[0]) for it in v.calls("free") if it not in fb): k.und(T, "free-bitmap", "not recognised")
            else: k.bad(T, "free-bitmap", "the tracking memory of a range is not freed")
        else:
            cond = c.F
            for it in mine:
                gd = c.AND(*[x for l, x in it.its])
                if f.feasible(c.AND(GB, cond, gd)): k.bad(T, "free-bitmap", "the tracking memory is freed twice", it.e.site)
                cond = c.OR(cond, gd)
            after = any(path_in_iter(g, L, x.e.inst, it.e.inst) for x in mu for it in mine)
            need = c.T if not after else c.NOT(fail)
            d = f.d.diff(drop_neg(c, cond), need, GB)
            if d is None: k.ok(T, "free-bitmap", "freed once per range")
            elif f.resolved(drop_neg(c, cond)): k.bad(T, "free-bitmap", "the tracking memory of a range is not freed when %s" % d.text("freed", "required"), mine[0].e.site)
            else: k.und(T, "free-bitmap", f.s(cond)[:200])
            if not after:
                z = [it for it in v.stores() if it.addr is ba and it.loops and const(f, it.val) == 0]
                # unchanged when no later failure can follow: then a retry would free it again
                if not z: k.bad(T, "free-bitmap-retry", "the freed tracking memory stays referenced: retrying a failed destroy frees it again", mine[0].e.site)
                else: k.ok(T, "free-bitmap-retry", "reference cleared")
    # no access to the range once it is gone
    for it in mu:
        st = [i for bb in g.cfg.rpo if bb in L.blocks for i in g.f.bmap[bb].insts if i.op in ("load", "store")]
        for i in st:
            ad = g.val(i.args[1] if i.op == "store" else i.args[0])
            if not (w.atoms & c.deep_atoms(ad)): continue
            if ad.b is None and not any(a in w.atoms for a in c.atoms_of(ad.leaf)): continue   # through a pointer read earlier
            if not path_in_iter(g, L, it.e.inst, i): continue
            gd = [x for l, x in g.iter_guards(i.block.name) if l is L]
            gd = v.R(gd[0]) if gd else c.T
            if f.feasible(c.AND(v.G, drop_neg(c, gd), f.isz(it.res), *[x for l, x in it.its])):
                if f.resolved(gd): k.bad(TT, "use-after-unmap", "the range structure is accessed after it was unmapped", g.site(i))
                else: k.und(TT, "use-after-unmap", g.site(i))
                break
        else: k.ok(TT, "use-after-unmap", "")
    # list: unmapped ranges are not linked any more, the failed one is
    nx = [n for i, n in f.loads(w.E)] ; pv = [n for i, n in f.loads(f.add(w.E, f.K(8)))]
    unl = [it for it in v.stores() if it.loops and it.loops[0] is L and any(it.val is n for n in nx) and any(it.addr is p for p in pv)]
    unb = [it for it in v.stores() if it.loops and it.loops[0] is L and any(it.val is p for p in pv) and any(it.addr is f.add(n, f.K(8)) for n in nx)]
    popped = [it for it in v.stores() if it.loops and it.loops[0] is L and it.addr is pl.list]
    if not unl:
        if popped or any(it.loops and it.loops[0] is L and it.kind == "store" and it.e.width == 8 and not it.claimed and it.addr is not f.faddr(w.E, "rseq_mempool_range", "alloc_bitmap") for it in v.items): k.und(T, "unlink", "not recognised")
        else: k.bad(T, "unlink", "an unmapped range stays in the list: when a later range cannot be unmapped, a retry walks freed memory", mu[0].e.site)
        return
    if not unb: k.bad(T, "unlink", "the back link of the following range still names the unmapped range", unl[0].e.site)
    else: k.ok(T, "unlink", "range taken out of the list")
    before = any(path_in_iter(g, L, unl[0].e.inst, x.e.inst) for x in mu)
    cl = c.AND(*[x for l, x in unl[0].its])
    d = f.d.diff(drop_neg(c, cl), c.T if before else c.NOT(fail), v.G)
    if d is not None:
        if f.resolved(drop_neg(c, cl)): k.bad(T, "unlink", "range not taken out of the list when %s" % d.text("unlinked", "required"), unl[0].e.site)
        else: k.und(T, "unlink", f.s(cl)[:160])
    if before:
        R = lambda x: v.R(x)
        hd = [it for it in v.stores() if it.val is w.E and not it.loops and c.restrict(it.top, b, False) is c.F]
        ok = False
        E8 = f.add(w.E, f.K(8))
        for a in (pl.list, f.add(pl.list, f.K(8))):
            if any(it.addr is a for it in hd):
                other = f.add(pl.list, f.K(8)) if a is pl.list else pl.list
                rd = [n for i, n in f.loads(a)]
                s1 = any(it.addr is (w.E if a is pl.list else E8) and any(it.val is R(n) or it.val is n for n in rd) for it in v.stores() if not it.loops)
                s2 = any(it.addr is (E8 if a is pl.list else w.E) and it.val is pl.list for it in v.stores() if not it.loops)
                s3 = any(any(it.addr is (f.add(R(n), f.K(8)) if a is pl.list else R(n)) for n in rd) and it.val is w.E for it in v.stores() if not it.loops)
                if s1 and s2 and s3: ok = True
                else: k.bad(T, "relink", "after a failure the range is put back with %s wrong" % ", ".join(n for n, x in (("its next link", s1), ("its prev link", s2), ("its neighbour's link", s3)) if not x), hd[0].e.site); ok = None
                break
        if ok: k.ok(T, "relink", "a range that could not be unmapped stays in the list")
        elif ok is False:
            if hd: k.und(T, "relink", "not recognised")
            else: k.bad(T, "relink", "a range that could not be unmapped is lost: it is no longer in the list when destroy fails", mu[0].e.site)

def path_in_iter(g, L, a, b):
    """b can follow a within one iteration of L (or after leaving it)"""
    if a.block is b.block:
        ins = a.block.insts
        if ins.index(a) < ins.index(b): return True
    seen = set(); st = list(g.cfg.succ[a.block.name])
    while st:
        x = st.pop()
        if x in seen or x == L.header: continue
        seen.add(x)
        if x == b.block.name: return True
        st += g.cfg.succ[x]
    return False

def untouched(k, m, f, v, pl, W, G):
    """in a forked child only heap memory and the header pages exist"""
    c, g = f.c, f.g
    bad = 0
    for b in g.cfg.rpo:
        for i in g.f.bmap[b].insts:
            if i.op not in ("load", "store"): continue
            a = g.val(i.args[1] if i.op == "store" else i.args[0])
            if a.b is not None: continue
            hit = None
            for at in c.atoms_of(a.leaf):
                nm = c.names.get(at)
                if nm and nm[0] == "rseq_mempool_range" and nm[2] in ("base", "init"): hit = "item memory"
                if nm and nm[0] == "rseq_mempool" and nm[2] == "free_list_head": hit = "the free list"
            wl = [l for l in g.loops_of(b)]
            if hit is None: continue
            gs = [v.R(x) for l, x in g.iter_guards(b)]
            if any(x is c.F for x in gs): continue
            top = drop_neg(c, gs[0])
            if not f.feasible(c.AND(v.G, top)): continue
            k.bad(("C22",), "child-touch", "destroy in a forked child reads %s, which is not inherited" % hit, g.site(i)); bad += 1
    # free list walked through a cursor
    for wid, w in walks(f, pl.head_addr, (0,)).items():
        gs = [v.R(x) for l, x in g.iter_guards(w.l.header)]
        if any(x is c.F for x in gs) or not f.feasible(c.AND(v.G, drop_neg(c, gs[0]))): continue
        k.bad(("C22",), "child-touch", "destroy in a forked child walks the free list, which lies in memory that is not inherited", g.site(g.f.bmap[w.l.header].insts[0])); bad += 1
    if not bad: k.ok(("C22",), "child-touch", "only heap memory and header pages are accessed")

# ------------------------------------------------------------------ robustness checks
def aborts(k, o, m, f, v, pl, P, robust, cow, sc, W, G):
    c, g = f.c, f.g
    T = ("C17", "C21")
    got = {}; unknown = []
    FW = walks(f, pl.head_addr, (0,))
    for it, cond in v.aborts():
        if it.name != "abort": continue
        try: kind = classify(k, o, m, f, v, pl, cow, W, FW, it, cond)
        except Unclear as e: kind = None
        if kind is None: unknown.append((it, cond))
        else: got.setdefault(kind, []).append(it)
    want = []
    if robust:
        want = ["leak"]
        if sc in ("zero", "parent"): want += ["poison-cpus", "list-range", "list-count", "list-loop"] + (["poison-init"] if cow else [])
    else:
        # tracking memory is absent in these pools
        for kd in list(got):
            if kd == "leak": continue
            k.bad(T, "destroy-check-" + kd, "the content of a pool without robustness checks ends the process", got[kd][0].e.site)
    if sc == "child":
        for kd in got:
            if kd in ("leak",): continue
            k.bad(("C22", "C17"), "destroy-check-" + kd, "content check in a forked child, where the content is not inherited", got[kd][0].e.site)
    for w in want:
        if w in got: continue
        if w == "leak" and sc == "child": continue
        if unknown: k.und(T, "destroy-check-" + w, "abort under a condition not understood: %s" % f.s(unknown[0][1])[:200])
        else: k.bad(T, "destroy-check-" + w, MISSING[w])
    for it, cond in unknown: k.und(T, "destroy-abort", "abort at %s under %s" % (it.e.site, f.s(cond)[:160]))
    if not unknown: k.ok(("C17",), "destroy-aborts", "every abort is one of the prescribed ones")

MISSING = {"leak": "destroying a robust pool with live items is not detected", "poison-cpus": "altered freed items (per-CPU memory) are not detected at destroy",
    "poison-init": "altered freed items (initial values) are not detected at destroy", "list-range": "a free-list node outside the pool is not detected at destroy",
    "list-loop": "an endless free list is not detected at destroy: the walk never ends", "list-count": "items missing from the free list are not detected at destroy"}

def lits(c, n):
    ls = c.implied_literals(n)
    conj = c.AND(*[c.node(b, c.T, c.F) if v else c.node(b, c.F, c.T) for b, v in ls]) if ls else c.T
    return ls if conj is n else None

def nu_of(f, E, n):
    """the reading of E->next_unused used in term n"""
    c = f.c
    for a in c.deep_atoms(n):
        nm = c.names.get(a)
        if nm and nm[0] == "rseq_mempool_range" and nm[2] == "next_unused": return c.leaf(c.poly(64, {(a,): 1}))
    return None

def classify(k, o, m, f, v, pl, cow, W, FW, it, cond):
    c, g = f.c, f.g
    chain, fin = describe(v, cond)
    T = ("C17", "C21")
    for l, e, rest in chain[:1]:
        pass
    # the condition outside all loops must hold in the scenario
    def top_ok(rest, rule):
        d = f.d.diff(drop_neg(c, rest), c.T, v.G)
        if d is None: return True
        if f.resolved(drop_neg(c, rest)): k.bad(T, rule, "the check is skipped when %s" % d.text("checked", "required"), it.e.site)
        else: k.und(T, rule, "checked only if %s" % f.s(rest)[:200])
        return False
    # --- accounting, outside loops
    if not chain:
        ls = lits(c, fin)
        if ls is None: 
            # condition = guards and one accounting literal
            ls = c.implied_literals(fin)
        acc = [(b, val) for b, val in ls if c.blist[b][0] == "eq" and not val and any(c.alist[a][0] in ("mu",) for a in c.deep_atoms(c.blist[b]))]
        if len(acc) != 1: return None
        b = acc[0][0]
        rest = c.restrict(fin, b, False)
        if not accounting(k, f, m, v, pl, W, FW, c.blist[b][1], it): return None
        top_ok(rest, "destroy-check-list-count")
        return "list-count"
    l0 = chain[0][0]
    # --- leak
    if l0.id in W and any(nm and nm[0] == "rseq_mempool_range" and nm[2] == "alloc_bitmap" for l, e, r in chain for a in c.deep_atoms(c.AND(fin, r)) for nm in (c.names.get(a),)) or l0.id in W and leak_mu(f, l0, fin) is not None:
        return leak(k, f, m, v, pl, W, chain, fin, it, top_ok)
    # --- free list walk
    if l0.id in FW: return freelist(k, f, m, v, pl, W, FW, chain, fin, it, top_ok)
    # --- poison
    if l0.id in W: return poison(k, o, f, m, v, pl, cow, W, chain, fin, it, top_ok)
    return None

def sums(f, W, FW, poly):
    """atoms of poly as quantities over an arbitrary pool: ('n',) ranges, ('F',) free-list nodes, ('sum', init, increment, next_unused atom); None if another kind of atom occurs"""
    c, g = f.c, f.g; out = {}
    Ks = {}
    for w in W.values():
        if w.l.K is not None and w.l.K.b is None: Ks[c.single(w.l.K.leaf)] = ("n",)
    for w in FW.values():
        if w.l.K is not None and w.l.K.b is None: Ks[c.single(w.l.K.leaf)] = ("F",)
    for a in c.atoms_of(poly):
        if a in Ks: out[a] = Ks[a]; continue
        ky = c.alist[a]
        if ky[0] == "mu":
            d = g.defs.get(ky[2])
            l = g.cfg.loops.get(d.block.name) if d is not None else None
            if l is None or l.id not in W: return None
            mu = g.val(g._resval(d)); i0, n0 = phi_parts(g, l, d)
            if i0 is None or n0 is None or n0.b is not None: return None
            inc = f.sub(n0, mu)
            if not f.resolved2(inc) or any(c.alist[x][0] in ("mu", "k", "kx") and x not in W[l.id].atoms for x in c.deep_atoms(inc)): return None
            out[a] = ("sum", i0, inc, nu_of(f, W[l.id].E, inc))
        elif any(c.alist[x][0] in ("mu", "k", "kx", "inst", "undef", "ceildiv") for x in c.deep_atoms(ky)): return None
    return out

def evaluate(f, v, pl, qs, poly, trials=80):
    """yield (value, total items, never allocated, freed) for sample pools"""
    import random
    from decide import Env
    c = f.c; rnd = random.Random(7)
    for t in range(trials):
        e = Env(c, rnd, f.d.hints, f.d.cfg)
        per = e.cfg["stride"] >> e.cfg["item_order"]; il = e.cfg["item_len"]
        n = rnd.randrange(0, 4); us = [rnd.choice((0, il, il * per, il * rnd.randrange(per + 1))) for _ in range(n)]
        never = sum(per - u // il for u in us); tot = n * per
        F = rnd.choice((0, tot - never, tot - never, max(0, tot - never - 1), rnd.randrange(tot - never + 1)))
        vals = {}
        for a, q in qs.items():
            if q[0] == "n": vals[a] = n
            elif q[0] == "F": vals[a] = F
            else:
                x = e.node(q[1])
                for u in us:
                    e2 = Env(c, rnd, f.d.hints, dict(e.cfg)); e2.poolptr = e.poolptr
                    if q[3] is not None: e2.setatom(c.single(q[3].leaf), u)
                    x += e2.node(q[2])
                vals[a] = x
        e.v.update(vals)
        yield e.poly(poly), tot, never, F

def accounting(k, f, m, v, pl, W, FW, p, it):
    """p == 0 <=> ranges * items per range == never allocated + freed"""
    T = ("C17", "C21"); rule = "destroy-check-list-count"
    if not all(ends_at(f, w, pl.list) for w in W.values() if w.l.K is not None) or not all(ends_at(f, w, f.K(0)) for w in FW.values()): return False
    qs = sums(f, W, FW, p)
    if qs is None or not any(q[0] == "F" for q in qs.values()): return False
    for val, tot, never, F in evaluate(f, v, pl, qs, p):
        if (val == 0) != (tot == never + F):
            k.bad(T, rule, "item accounting at destroy is wrong: with %d items, %d never allocated and %d on the free list the pool is taken as %s" % (tot, never, F, "intact" if val == 0 else "corrupted"), it.e.site)
            return True
    k.ok(T, rule, "abort unless freed + never allocated items make up all items")
    return True

def per_range(f, pl):
    """items per range, in the spellings the compiler produces"""
    o = f.fld(pl.p, "rseq_mempool", "item_order")
    return [f.lshr(pl.stride, f.sext(o)), f.lshr(pl.stride, f.zext(o))]

def freelist(k, f, m, v, pl, W, FW, chain, fin, it, top_ok):
    c, g = f.c, f.g; T = ("C17", "C21")
    fw = FW[chain[0][0].id]
    top_ok(chain[0][2], "destroy-check-list-walk")
    if len(chain) == 1:
        ls = lits(c, fin)
        ka = g.k_atom(fw.l)
        if ls and len(ls) == 1 and c.blist[ls[0][0]][0] == "ult":
            b, val = ls[0]; x, y = c.blist[b][1], c.blist[b][2]
            kp = c.poly(64, {(ka,): 1})
            # not (k < bound)   or   bound < k
            bound = None
            if not val and x is kp: bound = c.leaf(y)
            elif val and y is kp: bound = f.add(c.leaf(x), f.K(1))
            if bound is not None and bound.b is None:
                qs = sums(f, W, FW, bound.leaf)
                if qs is not None:
                    for val, tot, never, F in evaluate(f, v, pl, qs, bound.leaf):
                        if val < tot - never:
                            k.bad(T, "destroy-check-list-loop", "an intact free list is taken for an endless one: with %d items, %d never allocated, the walk is stopped after %d nodes" % (tot, never, val), it.e.site); break
                    else: k.ok(T, "destroy-check-list-loop", "endless free list detected; intact lists never are")
                    return "list-loop"
            return None
    # search for the range holding the node
    inner = [(l, e, r) for l, e, r in chain[1:]]
    srch = None
    ls = c.implied_literals(fin)
    cand = [l for l, e, r in inner if l.id in W] + [g.cfg.loops[c.blist[b][2][0]] for b, val in ls if c.blist[b][0] == "brk" and c.blist[b][2][0] in W]
    if not cand: return None
    l = cand[-1]; w = W[l.id]
    if not ends_at(f, w, pl.list): return None
    end = f.eq(w.E, pl.list)
    if l is chain[-1][0]:
        e0 = chain[-1][1]
        if e0 != l.counter and fin is not end and c.AND(fin, end) is not fin:
            if f.resolved2(fin): k.bad(T, "destroy-check-list-range", "abort although the free-list node was found in a range", it.e.site); return "list-range"
            return None
    # every other way out of the search is 'found'
    found = c.F
    for e in l.exits:
        cd = g._region(l, l.header).get(("e",) + e)
        if cd is None: continue
        if cd is f.eq(w.E, pl.list) or e == l.counter: continue
        cd = v.R(cd)
        cd = c.restrict(cd, f.eq(w.E, pl.list).b, f.eq(w.E, pl.list).hi is not c.T) if f.eq(w.E, pl.list).b is not None else cd
        found = c.OR(found, cd)
    nu = nu_of(f, w.E, found)
    base = f.fld(w.E, "rseq_mempool_range", "base")
    A = f.sub(fw.E, pl.delta()); A = v.R(A)
    if nu is None:
        k.bad(T, "destroy-check-list-range", "the search for the range of a free-list node does not look at the used part of each range", it.e.site) if f.resolved2(found) else None
        return "list-range" if f.resolved2(found) else None
    exp = c.AND(c.NOT(f.ult(A, base)), f.ult(A, f.add(base, nu)))
    d = f.d.diff(found, exp, v.G)
    if d is None: k.ok(T, "destroy-check-list-range", "abort unless each free-list node lies in the used part of a range")
    elif f.resolved2(found): k.bad(T, "destroy-check-list-range", "free-list node taken as in range: %s" % d.text(), it.e.site)
    else: k.und(T, "destroy-check-list-range", f.s(found)[:200])
    return "list-range"

def resolved2(self, n):
    """like resolved(), list cursors allowed"""
    c = self.c
    for b in c.support(n):
        if c.blist[b][0] not in ("eq", "ult", "slt", "bit0", "argb"): return False
    return True
import fa as _fa
_fa.FA.resolved2 = resolved2

def poison(k, o, f, m, v, pl, cow, W, chain, fin, it, top_ok):
    c, g = f.c, f.g; T = ("C17", "C21")
    w = W[chain[0][0].id]
    if not ends_at(f, w, pl.list): return None
    top_ok(chain[0][2], "destroy-check-poison")
    extra = c.T
    loops = [x[0] for x in chain[1:]]
    for l, e, r in chain[1:]: extra = c.AND(extra, r)
    r = v._differ_cond(c.AND(fin), loops)
    if r is None: return None
    base, dims, ln, val, ex2 = r
    extra = c.AND(extra, ex2)
    E = w.E
    rg = pl.rng(E)
    ini = any(c.names.get(a) and c.names[a][0] == "rseq_mempool_range" and c.names[a][2] == "init" for a in c.deep_atoms(base))
    nm = "poison-init" if ini else "poison-cpus"
    rule = "destroy-check-" + nm
    GG = c.AND(v.G, f.nz(rg.init) if cow else f.isz(rg.init))
    if ini and not cow: return "poison-none"
    it_dims = list(dims); probs = []
    d = f.d.diff(base, rg.init if ini else rg.base, GG)
    if d: probs.append("start: " + d.text())
    used = []
    for s, K in it_dims:
        nu = nu_of(f, E, K)
        if nu is not None:
            dd = f.d.diff(s, pl.item_len, GG)
            if dd: probs.append("item step: " + dd.text())
            dd = f.d.diff(f.mul(K, s), nu, GG)
            if dd: probs.append("part of the range looked at: " + dd.text())
            used.append("items")
        elif not ini:
            dd = f.d.diff(s, pl.stride, GG) or f.d.diff(K, pl.ncpu, GG)
            if dd: probs.append("CPUs: " + dd.text())
            used.append("cpus")
        else: return None
    if "items" not in used or (not ini and "cpus" not in used):
        if not probs: return None
    dd = f.d.diff(ln, pl.item_len, GG)
    if dd: probs.append("length: " + dd.text())
    dd = f.d.diff(val, pl.poison, GG)
    if dd: probs.append("value: " + dd.text())
    dd = f.d.diff(drop_neg(c, extra), c.T, GG)
    if dd:
        if f.resolved2(drop_neg(c, extra)): probs.append("condition: " + dd.text("checked", "required"))
        else: k.und(T, rule, "condition %s" % f.s(extra)[:200]); return nm
    if probs: k.bad(T, rule, "check of freed items at destroy: " + "; ".join(probs), it.e.site)
    else: k.ok(T, rule, "abort when a word of a freed item is not the poison")
    return nm

def leak_mu(f, L, fin):
    """the counter of set bits tested by the condition: (phi, loop)"""
    c, g = f.c, f.g
    for a in c.deep_atoms(fin):
        ky = c.alist[a]
        if ky[0] != "mu": continue
        d = g.defs.get(ky[2])
        if d is None or d.block.name not in g.cfg.loops: continue
        l = g.cfg.loops[d.block.name]
        if l.parent is L: return d, l
    return None

def leak(k, f, m, v, pl, W, chain, fin, it, top_ok):
    c, g = f.c, f.g; T = ("C17", "C21"); rule = "destroy-check-leak"
    w = W[chain[0][0].id]; E = w.E
    if not ends_at(f, w, pl.list): return None
    bms = [n for i, n in f.loads(f.faddr(E, "rseq_mempool_range", "alloc_bitmap"))]
    bm = bms[0] if bms else f.fld(E, "rseq_mempool_range", "alloc_bitmap")
    GB = c.AND(v.G, f.nz(bm))
    nw = f.lshr(f.add(f.lshr(pl.stride, pl.item_order), f.K(63)), f.K(6))
    extra = drop_neg(c, chain[0][2])
    lm = leak_mu(f, w.l, fin)
    if lm is not None and len(chain) == 1:
        d, l = lm
        mu = g.val(g._resval(d)); i0, n0 = phi_parts(g, l, d)
        if i0 is None or n0 is None: return None
        lz = f.isz(mu)
        ls = c.implied_literals(fin)
        hit = [(b, val) for b, val in ls if lz.b == b]
        if not hit or (lz.hi is c.T) == hit[0][1]: return None
        rest = c.restrict(fin, hit[0][0], hit[0][1])
        inc = f.sub(n0, mu) if n0.b is None else None
        probs = []
        if const(f, i0) != 0: probs.append("counter does not start at 0")
        word = None
        if inc is not None:
            for a in c.deep_atoms(inc):
                if c.alist[a][0] == "load" and g.k_atom(l) in c.deep_atoms(c.leaf(c.alist[a][1])): word = (a, c.alist[a])
            if word is None:
                for a in c.deep_atoms(inc):
                    if c.alist[a][0] == "load" and not (c.names.get(a) and c.names[a][2] == "alloc_bitmap"): word = (a, c.alist[a])
        if word is None: return None
        if not any(c.alist[a][0] == "fcall" and "ctpop" in c.alist[a][1] for a in c.deep_atoms(inc)): return None
        ka = g.k_atom(l)
        base = c.leaf(word[1][1]); K = l.K
        if K is None: return None
        K = v.R(K)
        r = v.affine(base, [l])
    elif len(chain) == 2:
        l = chain[1][0]; ls = c.implied_literals(fin); rest = chain[1][2]; probs = []
        r = None
        dfc = v._differ_cond(fin, [l])
        if dfc is None or const(f, dfc[3]) != 0: return None
        if f.same(dfc[0], bm, GB) and f.same(dfc[2], f.mul(nw, f.K(8)), GB) and not dfc[1]:
            dd = f.d.diff(c.AND(drop_neg(c, c.AND(rest, extra)), dfc[4]), c.T, GB)
            if dd is None: k.ok(T, rule, "abort when a bit of the tracking bitmap is set"); return "leak"
        return None
    else: return None
    if r is None: return None
    A, S = r
    if not f.same(c.leaf(A), bm, GB): probs.append("looks at %s" % f.s(c.leaf(A))[:100])
    s = S.get(l)
    if s is None or c.cval(s) != 8: probs.append("step between words is %s" % (f.s(c.leaf(s)) if s is not None else "0"))
    dd = f.d.diff(K, nw, GB)
    if dd: probs.append("number of words: " + dd.text())
    dd = f.d.diff(drop_neg(c, c.AND(rest, extra)), c.T, GB)
    if dd:
        if f.resolved2(drop_neg(c, c.AND(rest, extra))): probs.append("condition: " + dd.text("checked", "required"))
        else: k.und(T, rule, f.s(rest)[:200]); return "leak"
    if probs: k.bad(T, rule, "leak detection: " + "; ".join(probs), it.e.site)
    else: k.ok(T, rule, "abort when a bit of the tracking bitmap is set")
    return "leak"

def flag_rule(rep, m, f, ua):
    """the marker that suppresses re-validation is set only after a range was really unmapped"""
    off = m.o("rseq_mempool", "range_unmapped")
    T = ("C17", "C21"); n = 0
    g, c = f.g, f.c
    for e in g.effects():
        if e.kind == "store" and e.addr is ua:
            n += 1
            prior = [x for x in g.effects() if x.kind == "call" and x.name == "munmap" and x.loops and x.loops == e.loops]
            gd = [x for l, x in g.iter_guards(e.block) if l is not None]
            if not e.loops or not prior: rep.bad(T, "revalidation", FN, "content checks are disabled although no range was unmapped", e.site); continue
            ok = True
            for p in prior:
                pg = [x for l, x in g.iter_guards(p.block) if l is not None]
                if f.feasible(c.AND(*(gd + pg + [f.nz(p.res)]))) and path_in_iter(g, e.loops[0], p.inst, e.inst): ok = False
            if ok and any(path_in_iter(g, e.loops[0], p.inst, e.inst) for p in prior): rep.ok(T, "revalidation", FN, "set after munmap succeeded")
            else: rep.bad(T, "revalidation", FN, "content checks are disabled although no range was unmapped", e.site)
    for fn in m.mod.funcs:
        if fn == FN or not m.mod.funcs[fn].blocks: continue

if __name__ == "__main__":
    import time, sys, collections
    sys.setrecursionlimit(100000)
    t = time.time(); rep = Report(); run(rep)
    for kk, vv in rep.obl.items():
        if vv[1] != "holds": print(vv[1].upper(), sorted(vv[0]), kk, str(vv[2])[:500])
    print(collections.Counter(vv[1] for vv in rep.obl.values()), time.time() - t)
