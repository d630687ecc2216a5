"""Loop counters of the allocator are wide enough for their bounds (C16 C17 C18 C19 C20 C21 C27).

A loop whose test extends a narrow counter and compares it with a wider bound never ends, or starts over, when the bound
exceeds the counter's range.  The bound is the loop's closed-form count; its attainable values are those of the pool's
documented configuration space (stride up to 2^36, CPU counts up to 2^20)."""
import mp
from rules_pool import EINVAL
SHARES = None
ALLOC = ("C14", "C16", "C17"); FREE = ("C15", "C17", "C18"); DEST = ("C17", "C21"); CREATE = ("C19", "C20"); NUMA = ("C27",)
PUB = {"rseq_mempool_percpu_malloc": ALLOC, "rseq_mempool_percpu_zmalloc": ALLOC, "rseq_mempool_percpu_malloc_init": ALLOC, "librseq_mempool_percpu_free": FREE,
    "rseq_mempool_destroy": DEST, "rseq_mempool_create": CREATE, "rseq_mempool_range_init_numa": NUMA}

def narrow(f):
    """(loop, bits, largest counter value, step, site) of loops whose exit test widens a counter"""
    g = f.g; out = []
    for l in g.cfg.loops.values():
        if l.counter is None or l.K is None: continue
        t = g.f.bmap[l.counter[0]].insts[-1]
        seen = set(); todo = [a for a in t.args if a.kind == "local"]; hit = None
        while todo and len(seen) < 24:
            v = todo.pop()
            if v.name in seen: continue
            seen.add(v.name)
            d = g.defs.get(v.name)
            if d is None or d.block.name not in l.blocks: continue
            if d.op in ("zext", "sext") and d.args[0].kind == "local" and d.args[0].ty.kind == "int" and d.args[0].ty.bits > 1:
                w = d.args[0].ty.bits; x = d.args[0].name
                iv = next((n for n in g.iv if g.iv[n][0] is l and (n == x or x in {v.name for v, p in g.iv[n][1].extra if v.kind == "local"})), None)
                if iv is not None:
                    st = g.iv[iv][2]; k = 1
                    if len(st) == 1 and st[0][1][0] == "i": k = abs(st[0][1][1] * st[0][2]) or 1
                    if k >> (w - 1): k = (1 << w) - k
                    hit = (w, (1 << (w - 1 if d.op == "sext" else w)) - 1, k, d)
            if d.op != "phi": todo += [a for a in d.args if a.kind == "local"]
        if hit: out.append((l,) + hit[:3] + (g.site(hit[3]),))
    return out

def wrapped(f):
    """(bits, largest value, bound term, site) of exit tests on a header value cut back to fewer bits each time"""
    g = f.g; out = []
    for l in g.cfg.loops.values():
        for b, s in l.exits:
            t = g.f.bmap[b].insts[-1]
            if t.op != "br" or len(t.extra) != 2 or t.args[0].kind != "local": continue
            cmp = g.defs.get(t.args[0].name)
            if cmp is None or cmp.op != "icmp" or cmp.extra in ("eq", "ne"): continue
            for i in (0, 1):
                if cmp.args[i].kind != "local" or not g._invariant(cmp.args[1 - i], l): continue
                d = g.defs.get(cmp.args[i].name); x = None
                if d is None or d.block.name not in l.blocks: continue
                if d.op == "and" and d.args[1].kind == "int" and (d.args[1].val + 1) & d.args[1].val == 0 and d.args[1].val > 1:
                    x = d.args[0]; w = d.args[1].val.bit_length(); top = d.args[1].val
                elif d.op == "ashr" and d.args[1].kind == "int" and d.args[0].kind == "local":
                    e = g.defs.get(d.args[0].name)
                    if e is not None and e.op == "shl" and e.args[1].kind == "int" and e.args[1].val == d.args[1].val:
                        x = e.args[0]; w = d.ty.bits - d.args[1].val; top = (1 << (w - 1)) - 1
                if x is None or x.kind != "local" or d.ty.bits <= w: continue
                ph = g.defs.get(x.name)
                if ph is None or ph.op != "phi" or ph.block.name != l.header: continue
                out.append((w, top, g.val(cmp.args[1 - i]), g.site(cmp)))
    return out

def run(rep, shared=None):
    m = mp.MP("c")
    todo = dict(PUB)
    if m.creator: todo[m.creator] = CREATE
    for fn, props in todo.items():
        if fn not in m.mod.funcs: continue
        f = m.fa(fn, {}); rep.analysed(fn)
        bad = 0
        for l, w, top, k, site in narrow(f):
            # the test is made with counter values up to K * step
            if f.feasible(f.AND(f.slt(f.K(top // k + 1), l.K), f.slt(l.K, f.K(1 << 48)))):
                bad += 1; rep.bad(props, "loop-width", fn, "a %d-bit loop counter (step %d) is compared with a bound it cannot reach" % (w, k), site)
        for w, top, bound, site in wrapped(f):
            W = next((x.w for x in f.c.leaves(bound) if not isinstance(x, bool)), 64)
            if W > 32 and f.feasible(f.AND(f.ult(f.K(top, W), bound), f.ult(bound, f.K(1 << 48, W)))):
                bad += 1; rep.bad(props, "loop-width", fn, "a loop counter cut to %d bits is compared with a bound it cannot reach" % w, site)
        if not bad: rep.ok(props, "loop-width", fn, "%d loops: no counter narrower than its bound" % len(f.g.cfg.loops))

if __name__ == "__main__":
    import report
    rep = report.Report(); run(rep); report.dump(rep) if hasattr(report, "dump") else None
    for k, v in rep.obl.items(): print(v[1], k, v[2] if len(v) > 2 else "")
