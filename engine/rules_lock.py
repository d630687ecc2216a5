"""C13: lock discipline of pools and pool sets, as a typestate analysis over the control flow graph.

State: per lock object (address term of the value graph) held / not held and number of completed critical sections.
Every access to protected state must happen in states where the owner's lock is held; lock, unlock and return are
only allowed in the right state.  A conflicting control-flow path is reported only if the conjunction of its branch
conditions (value-graph terms) is not contradictory."""
import mp, cc
PROPS = ("C13",)
POOL_OPS = ("rseq_mempool_percpu_malloc", "rseq_mempool_percpu_zmalloc", "rseq_mempool_percpu_malloc_init", "librseq_mempool_percpu_free")
SET_OPS = ("rseq_mempool_set_percpu_malloc", "rseq_mempool_set_percpu_zmalloc", "rseq_mempool_set_percpu_malloc_init", "rseq_mempool_set_add_pool")
OTHERLOCK = ("pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_spin_lock", "pthread_rwlock_wrlock", "pthread_cond_wait", "pthread_mutex_clocklock")
CAP = 3000

def mutex_off(m, s):
    for k, v in m.st[s]["members"].items() if "members" in m.st[s] else ():
        if k == "lock": return v[0]
    return m.o(s, "lock")

def poly_has(c, node, pred):
    """every leaf of the address term has a monomial for which pred(atom key, atom id, coefficient) holds"""
    ls = [x for x in c.leaves(node)]
    if not ls: return False
    for p in ls:
        ok = False
        for mono, co in p.d.items():
            if len(mono) == 1 and pred(c.alist[mono[0]], mono[0], co): ok = True
        if not ok: return False
    return True

class Locks:
    def __init__(self, m, fname, isset):
        self.m, self.isset, self.name = m, isset, fname
        self.retry = isset and "malloc" in fname       # retries with larger pools: one section per attempt
        self.isfree = "free" in fname
        self.f = m.fa(fname, {}); self.g = self.f.g; self.c = self.f.c
        self.arg0 = self.f.arg(0)
        self.events = {}
        o = lambda s, p: m.o(s, p)
        self.mutpool = {o("rseq_mempool", "free_list_head"), o("rseq_mempool", "nr_ranges")} | {o("rseq_mempool", "range_list") + i for i in (0, 8)}
        self.mutrange = {o("rseq_mempool_range", "next_unused")} | {o("rseq_mempool_range", "node") + i for i in (0, 8)}
        self.plock = o("rseq_mempool", "lock"); self.slock = o("rseq_mempool_set", "lock")
        self.bm = o("rseq_mempool_range", "alloc_bitmap")
        self.und = []
        for b in self.g.cfg.rpo: self.events[b] = [e for i in self.g.f.bmap[b].insts for e in [self.event(i)] if e]
    def event(self, i):
        """('lock'|'unlock', addr, inst) | ('acc', owner lock address or None = any pool lock, inst, what) | ('ret', inst)"""
        g, f, m = self.g, self.f, self.m
        if i.op in ("call", "callbr"):
            n = g.callee(i)
            if n == mp.LOCK: return ("lock", g.val(i.args[0]), i)
            if n == mp.UNLOCK: return ("unlock", g.val(i.args[0]), i)
            if n in OTHERLOCK: self.und.append("%s at %s" % (n, g.site(i)))
            if self.isfree and n in ("llvm.memset.p0.i64", "memset", "memcpy", "llvm.memcpy.p0.p0.i64"): return ("item", i)
            if not self.isset and n == m.creator: return ("acc", f.add(g.val(i.args[0]), f.K(self.plock)), i, "adds a range")
            return None
        if i.op == "ret": return ("ret", i)
        if i.op in ("load", "store", "cmpxchg", "atomicrmw"):
            pv = i.args[1] if i.op == "store" else i.args[0]
            addr = g.val(pv); tag = g.mod.tbaa_tag(i.tbaa) if i.op in ("load", "store") else None
            verb = "reads" if i.op == "load" else "writes"
            c = self.c
            if self.isset:
                a0 = self.arg0.leaf
                def base(p):
                    d = f.c.padd(p, a0, -1)
                    return len(d.d) < len(p.d)
                ls = list(c.leaves(addr))
                if ls and all(base(p) for p in ls): return ("acc", f.add(self.arg0, f.K(self.slock)), i, "%s the entries of the set" % verb)
                return None
            if tag and tag[0] == "rseq_mempool" and tag[1] in self.mutpool:
                fl = g.field(tag)
                return ("acc", f.add(f.sub(addr, f.K(tag[1])), f.K(self.plock)), i, "%s %s" % (verb, (fl and fl[2]) or "pool state"))
            if tag and tag[0] == "rseq_mempool_range" and tag[1] in self.mutrange:
                fl = g.field(tag)
                return ("acc", None, i, "%s %s of a range" % (verb, (fl and fl[2]) or "the state"))
            if tag and tag[0] == "list_head": return ("acc", None, i, "%s the range list" % verb)
            if tag and tag[0] == "free_list_node": return ("acc", None, i, "%s a free-list link" % verb)
            def isbm(k, a, co):
                n = c.names.get(a)
                return co == 1 and k[0] == "load" and n is not None and n[0] == "rseq_mempool_range" and n[1] == self.bm
            if poly_has(c, addr, isbm): return ("acc", None, i, "%s the allocation bitmap" % verb)
            if self.isfree and i.op == "store": return ("item", i)
        return None
    # ------------------------------------------------------------ exploration
    def step(self, st, ev):
        """-> (new state, problem or None); st: sorted tuple of (lock term, held, sections)"""
        d = {a: (h, n) for a, h, n in st}
        if ev[0] == "lock":
            h, n = d.get(ev[1], (0, 0))
            if h: return st, "takes a lock it already holds"
            pr = None
            if n and not self.retry: pr = "takes the lock again after having released it (the operation is split into several critical sections)"
            d[ev[1]] = (1, min(n + 1, 2))
        elif ev[0] == "unlock":
            h, n = d.get(ev[1], (0, 0))
            pr = None if h else "releases a lock it does not hold"
            d[ev[1]] = (0, n)
        elif ev[0] == "item":
            pr = "writes the item after releasing the lock, when it may already have been handed out again" if any(n and not h for h, n in d.values()) else None
        elif ev[0] == "ret":
            pr = "returns with the lock held" if any(h for h, n in d.values()) else None
        else:
            if ev[1] is None: ok = any(h for h, n in d.values())
            else: ok = d.get(ev[1], (0, 0))[0] == 1
            pr = None if ok else "%s without holding the lock" % ev[3]
        return tuple(sorted(((a, h, n) for a, (h, n) in d.items()), key=lambda x: x[0].id)), pr
    def run(self):
        """all (event, problem, path) conflicts; paths in the (block, state) graph"""
        cfg = self.g.cfg
        start = (cfg.entry, ())
        pre = {start: []}; todo = [start]; bad = {}
        while todo:
            b, st = todo.pop()
            s = st
            for ev in self.events[b]:
                s, pr = self.step(s, ev)
                if pr and b not in cfg.doomed: bad.setdefault((id(ev), pr), (ev, pr, []))[2].append((b, st))
            for t in cfg.succ[b]:
                n = (t, s)
                if n not in pre: pre[n] = []; todo.append(n)
                if (b, st) not in pre[n]: pre[n].append((b, st))
        self.pre = pre
        return list(bad.values())
    def feasible(self, node):
        """True: some path whose conditions do not contradict; False: none; None: too many"""
        c = self.c; g = self.g; n = 0
        stack = [(node, c.T, frozenset([node]))]
        while stack:
            x, cond, seen = stack.pop(); n += 1
            if n > CAP: return None
            if not self.pre[x]: return True
            for p in self.pre[x]:
                if p in seen: continue
                e = c.T
                if g.cfg.num[p[0]] < g.cfg.num[x[0]]:
                    l = g.cfg.inner[p[0]]
                    if l is None: e = g.edge_cond(p[0], x[0])
                q = c.AND(cond, e)
                if q is c.F: continue
                stack.append((p, q, seen | {p}))
        return False

def run_one(rep, m, fname, isset):
    where = fname
    L = Locks(m, fname, isset)
    rep.analysed(fname)
    if L.g.cfg.irreducible: rep.und(PROPS, "lock-state", where, "irreducible control flow"); return
    if L.und: rep.und(PROPS, "lock-state", where, "other synchronisation: " + "; ".join(L.und)); return
    accs = [e for b in L.g.cfg.rpo for e in L.events[b] if e[0] == "acc"]
    locks = [e for b in L.g.cfg.rpo for e in L.events[b] if e[0] == "lock"]
    if not accs: rep.und(PROPS, "lock-state", where, "no access to protected state recognised"); return
    bads = L.run(); flagged = set()
    for ev, pr, nodes in bads:
        inst = ev[1] if ev[0] in ("ret", "item") else ev[2]
        props = ("C15", "C16", "C18") if ev[0] == "item" else PROPS + (("C25",) if fname == "rseq_mempool_set_add_pool" else ())
        fs = [L.feasible(x) for x in nodes]
        site = L.g.site(inst)
        if any(x is True for x in fs):
            rep.bad(props, "lock-state", "%s: %s" % (where, site), "%s %s" % (fname, pr), site); flagged.add(id(ev))
        elif any(x is None for x in fs): rep.und(props, "lock-state", "%s: %s" % (where, site), "cannot exclude the path on which it %s" % pr); flagged.add(id(ev))
    for b in L.g.cfg.rpo:
        for e in L.events[b]:
            if id(e) in flagged or b in L.g.cfg.doomed: continue
            if e[0] == "acc": rep.ok(PROPS, "access-under-lock", "%s: %s" % (where, L.g.site(e[2])), e[3])
            elif e[0] == "item": rep.ok(("C15", "C16", "C18"), "item-write-under-lock", "%s: %s" % (where, L.g.site(e[1])), "")
            elif e[0] == "ret": rep.ok(PROPS, "return-unlocked", where, "")
            else: rep.ok(PROPS, e[0] + "-state", "%s: %s" % (where, L.g.site(e[2])), "")
def run(rep, shared=None):
    mc, ms = mp.MP("c"), mp.MP("s")
    for n in POOL_OPS: run_one(rep, mc, n, False)
    for n in SET_OPS: run_one(rep, ms, n, True)

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(100000)
    from report import Report
    r = Report(); run(r)
    for k, v in sorted(r.obl.items()):
        if v[1] != "holds" or "-v" in sys.argv: print(v[1], k, v[2][:200])
    print(len(r.obl))
