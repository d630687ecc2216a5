"""C27: NUMA placement requests.  Loop closed forms of the value graph give, for one batch, the pages asked for, the
number of them and the next starting page; the batches are shown to tile the area by induction on the loop variable."""
import mp, vg, decide
from seg import Seg, Cyclic
P = ("C27",)
FN = "rseq_mempool_range_init_numa"

def run(rep, shared=None):
    m = mp.MP("c")
    if FN not in m.mod.funcs: rep.und(P, "numa", FN, "function not found"); return
    rep.analysed(FN)
    from fa import FA
    state = {}
    def mu_hint(env, k, w):
        pg = env.page; ln = env.atom(state["len"], 64); nr = ln // pg
        v = env.r.choice((0, nr, max(0, nr - 1), nr // 2, min(nr, 4096), max(0, nr - 4096), max(0, nr - 4097)))
        kind = state.get("kind", {}).get(k[2])
        if kind == "ptr": return env.atom(state["addr"], 64) + pg * v
        return v if w == 64 else env.num(w)
    f = m.fa(FN, {0: lambda env: 0x7f0000000000 + env.page * env.r.randrange(99), 1: lambda env: env.page * env.r.choice((0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12345, (1 << 31) + 7, 1 << 32, (1 << 32) + 1, (1 << 33) + 4099, 1 << 44)) + env.r.choice((0, 0, 1, env.page - 1)), 3: lambda env: env.r.choice((0, 2, 4))})
    f.d.hints[("mu",)] = mu_hint
    g, c = f.g, f.c
    state["len"] = c.single(f.arg(1).leaf); state["addr"] = c.single(f.arg(0).leaf)
    calls = [e for e in g.effects() if e.kind == "call" and e.name in ("move_pages", "numa_move_pages")]
    if not calls:
        es = [e for e in g.effects() if e.kind == "call"]
        # only complain when nothing is ever asked
        if not any("mbind" in e.name or "move" in e.name or "syscall" in e.name for e in es): rep.bad(P, "numa-request", FN, "no placement request is made", FN)
        else: rep.und(P, "numa-request", FN, "placement by other means")
        return
    if len(calls) != 1: rep.und(P, "numa-request", FN, "%d request sites" % len(calls)); return
    call = calls[0]; site = call.site
    def put(v, rule, good, bad, st=None):
        if v is True: rep.ok(P, rule, FN, good)
        elif v is False: rep.bad(P, rule, "%s: %s" % (FN, st or site), bad, st or site)
        else: rep.und(P, rule, FN, bad + " (not resolved)")
    pid, cnt, pages, nodes, status, flags = call.args[:6]
    put(c.cval(pid.leaf) == 0 if pid.b is None else None, "numa-self", "asks for the calling process", "asks for another process")
    put(f.same(flags, f.arg(3, 32), call_guard(f, call)), "numa-flags", "passes the caller's flags", "passes %s as flags" % f.s(flags)[:80])
    def base(n):
        if n.b is not None: return None
        a = c.single(n.leaf); return c.alist[a][1] if a is not None and c.alist[a][0] == "alloca" else None
    sizes = {}
    for b in g.cfg.rpo:
        for i in g.f.bmap[b].insts:
            if i.op == "alloca":
                try: sizes[i.res] = m.mod.sizeof(i.extra)
                except Exception: pass
    pb, nb, sb = base(pages), base(nodes), base(status)
    if None in (pb, nb): rep.und(P, "numa-buffers", FN, "buffers are not local arrays"); return
    L = g.cfg.inner[call.block]
    # stores that fill the batch
    fills = [e for e in g.effects() if e.kind == "store" and based(c, e.addr, pb)]
    if len(fills) != 1: rep.und(P, "numa-fill", FN, "%d stores into the page list" % len(fills)); return
    e = fills[0]; fl = g.cfg.inner[e.block]
    if fl is None or fl is L or fl.K is None or (fl.parent is not L): rep.und(P, "numa-fill", FN, "filling loop not in closed form"); return
    ka = g.k_atom(fl)
    zero = lambda n: g.subst(n, ka, f.K(0))
    one = lambda n: g.subst(n, ka, f.K(1))
    page = c.leaf(c.poly(64, {(c.atom(("page",)),): 1}))
    nr = None
    V0 = zero(e.val)
    # loop variables
    mus = {}
    if L is not None:
        for i in g.f.bmap[L.header].insts:
            if i.op != "phi": continue
            init = [g.val(v) for v, p in i.extra if p not in L.blocks]; nxt = [g.val(v) for v, p in i.extra if p in L.blocks]
            if i.res in g.iv or len(init) != 1 or len(nxt) != 1 or g.width(i.ty) != 64: continue
            a = c.atom(("mu", g.f.name, i.res)); mus[a] = (init[0], nxt[0], i.res)
    used = [a for a in mus if any(a in c.deep_atoms(x) for x in (V0, cnt))]
    state["kind"] = {}
    for a in used:
        if V0.b is None and V0.leaf.d.get((a,)) == 1: state["kind"][mus[a][2]] = "ptr"
    G = call_guard(f, call)
    if L is not None:
        if not used: put(False, "numa-advance", "", "every batch asks for the same pages"); return
        main = used[0]
        S = [lambda x: x]
        if len(used) > 1:
            # tie the other variables to the main one: steps proportional to its step
            main = [a for a in used if state["kind"].get(mus[a][2]) != "ptr"][0]
            mi, mn, _ = mus[main]; mv = c.leaf(c.poly(64, {(main,): 1})); D = f.sub(mn, mv)
            for a in used:
                if a == main: continue
                ai, an, nm = mus[a]; av = c.leaf(c.poly(64, {(a,): 1})); Da = f.sub(an, av); tied = False
                for t in (page, f.K(1), f.K(-1), f.mul(page, f.K(-1))):
                    if f.same(Da, f.mul(D, t), G):
                        rel = f.add(ai, f.mul(f.sub(mv, mi), t))
                        S.append(lambda x, a=a, rel=rel: g.subst(x, a, rel)); tied = True; break
                if not tied: rep.und(P, "numa-advance", FN, "several loop variables"); return
        def sub(x):
            for q in S: x = q(x)
            return x
        mi, mn, _ = mus[main]
        V0, cnt, mn, G = sub(V0), sub(cnt), sub(mn), sub(G)
        K = sub(fl.K); val1 = sub(one(e.val)); slot0, slot1 = sub(zero(e.addr)), sub(one(e.addr))
    else:
        mi = mn = None; K = fl.K; val1 = one(e.val); slot0, slot1 = zero(e.addr), one(e.addr); sub = lambda x: x
    put(f.same(slot0, pages, G) and f.same(f.sub(slot1, slot0), f.K(8), G), "numa-slots", "fills consecutive slots from the first", "page list is not filled from its first slot consecutively: %s" % f.s(e.addr)[:100], e.site)
    put(f.same(f.sub(val1, V0), page, G), "numa-stride", "consecutive pages", "consecutive slots are not one page apart: %s" % f.s(e.val)[:100], e.site)
    put(f.same(K, cnt, G), "numa-count", "asks for exactly the pages listed", "asks for %s pages but lists %s" % (f.s(cnt)[:80], f.s(K)[:80]))
    nrp = f.lshr(f.arg(1), f.sext(c.leaf(c.var(32, ("fcall", "clog2", (page.leaf,))))))
    nr2 = c.apply("udiv", lambda x, y: g._shift("udiv", x, y), f.arg(1), page)
    if L is not None:
        v0i = g.subst(V0, main, mi)
        put(f.same(v0i, f.arg(0), c.T), "numa-first", "starts at the first page of the area", "the first batch starts at %s" % f.s(v0i)[:100], e.site)
        v0n = g.subst(V0, main, mn)
        put(f.same(v0n, f.add(V0, f.mul(cnt, page)), G), "numa-advance", "the next batch starts after the last page asked for", "the next batch starts at %s instead of after the pages asked for" % f.s(v0n)[:120], e.site)
    else: put(f.same(V0, f.arg(0), G), "numa-first", "starts at the first page of the area", "starts at %s" % f.s(V0)[:100], e.site)
    # Q: page index the batch starts at;  Q + cnt <= nr, 1 <= cnt <= N
    end = f.add(V0, f.mul(cnt, page)); lim = f.add(f.arg(0), f.mul(nr2, page))
    def holds(cond, GG): return f.d.diff(cond, c.T, GG) is None
    put(holds(c.NOT(g.icmp("ult", lim, end)), G), "numa-inside", "asks only for whole pages of the area", "asks for pages beyond the area")
    put(holds(c.NOT(f.isz(cnt)), G), "numa-some", "every batch makes progress", "makes an empty request and never ends")
    for nm, b, w in (("page", pb, 8), ("node", nb, 4), ("status", sb, 4)):
        if b in sizes: put(holds(c.NOT(g.icmp("ult", f.K(sizes[b] // w), cnt)), G), "numa-" + nm + "-buffer", "batches fit the %s buffer" % nm, "a batch can exceed the %s buffer of %d entries" % (nm, sizes[b] // w))
        elif b is not None: rep.und(P, "numa-" + nm + "-buffer", FN, "buffer size not resolved")
    # other accesses to the buffers (reports)
    for b_ in g.cfg.rpo:
        for i in g.f.bmap[b_].insts:
            if i.op != "load": continue
            ad = g.val(i.args[0])
            for nm, b in (("page", pb), ("node", nb), ("status", sb)):
                if b is None or b not in sizes or not based(c, ad, b): continue
                off = f.sub(ad, c.leaf(c.var(64, ("alloca", b)))); lp = g.cfg.inner[b_]; GG = c.T; wd = g.width(i.ty) // 8
                for l, x in g.iter_guards(b_):
                    GG = c.AND(GG, x)
                kas = [(l, g.k_atom(l)) for l, x in g.iter_guards(b_) if l is not None and g.k_atom(l) in c.deep_atoms(off)]
                if len(kas) > 1 or any(l.K is None for l, _ in kas): rep.und(P, "numa-read", FN, "read of the %s buffer not in closed form" % nm); continue
                last = sub(g.subst(off, kas[0][1], f.sub(kas[0][0].K, f.K(1)))) if kas else sub(off)
                GG = sub(GG)
                if kas: GG = c.AND(g.subst(GG, kas[0][1], f.K(0)), f.nz(sub(kas[0][0].K)))
                d = f.d.diff(g.icmp("ult", f.K(sizes[b] - wd), last), c.F, c.AND(G, GG))
                put(d is None, "numa-read", "the %s buffer is read inside its bounds" % nm, "reads beyond the %s buffer: %s" % (nm, d.text() if d else ""), g.site(i))
    # leaving the loop without failure means all pages were asked for
    if L is not None:
        stay = [x for l, x in g.iter_guards(call.block) if l is L]
        st = sub(stay[0]) if stay else c.T
        more = g.icmp("ult", f.sub(V0, f.arg(0)), f.mul(nr2, page))
        NF = c.AND(f.nz(f.arg(3, 32)), inv(f, g))
        d = f.d.diff(st, more, NF)
        lits = [b for b in c.support(st) if c.blist[b][0] not in ("eq", "ult", "slt")]
        put(True if d is None else None if lits else False, "numa-all", "goes on exactly until every page was asked for", "stops or goes on wrongly: %s" % (d.text("goes on", "pages left") if d else ""))
        more2 = g.subst(more, main, mn); R = call.res
        for (b, t) in L.exits:
            if t in g.cfg.doomed: continue
            x = c.T
            for l, q in g.iter_guards(b):
                if l is L: x = q
            x = sub(c.AND(x, g.edge_cond(b, t)))
            if x is c.F: continue
            w = g.width(call.inst.ty)
            H = c.OR(c.NOT(more), c.NOT(more2), g.icmp("slt", R, f.K(0, w)))
            d = f.d.diff(H, c.T, c.AND(x, NF))
            lits = [y for y in c.support(x) if c.blist[y][0] not in ("eq", "ult", "slt")]
            put(True if d is None else None if lits else False, "numa-stop", "stops early only when a request failed", "stops although pages are left and no request failed", g.site(g.f.bmap[b].insts[-1]))
    else: put(holds(c.NOT(g.icmp("ult", end, lim)), G), "numa-all", "one request for all pages", "asks only once although pages may be left")
    # node list
    cov = []; vals = []; unk = False; symb = []
    nv = [g.val(g._resval(x.inst)) for x in g.effects() if x.kind == "call" and x.name == "numa_node_of_cpu"]
    for x in [x for x in g.effects() if x.kind == "store" and based(c, x.addr, nb)]:
        l = g.cfg.inner[x.block]
        off = f.sub(x.addr, nodes)
        if l is None or l is L:
            o = c.cval(off.leaf) if off.b is None else None
            if o is None: unk = True; continue
            cov.append((o // 4, o // 4 + 1)); vals.append(x)
        else:
            kk = g.k_atom(l); o0 = g.subst(off, kk, f.K(0)); o1 = f.sub(g.subst(off, kk, f.K(1)), o0)
            o0v = c.cval(o0.leaf) if o0.b is None else None; o1v = c.cval(o1.leaf) if o1.b is None else None
            if o0v is None or o1v != 4 or l.K is None: unk = True; continue
            n = c.cval(l.K.leaf) if l.K.b is None else None
            if n is None:
                if f.same(sub(l.K), cnt, G): n = 1 << 30
                else: symb.append((o0v // 4, sub(l.K))); vals.append(x); continue
            cov.append((o0v // 4, o0v // 4 + n)); vals.append(x)
    cov.sort(); top = 0
    for a, b in cov:
        if a <= top: top = max(top, b)
    N = sizes.get(pb, 1 << 40) // 8
    if not nv: put(None, "numa-node", "", "node of the CPU is not asked for by numa_node_of_cpu")
    else:
        over = [b for a, b in cov if nb in sizes and b < (1 << 30) and b > sizes[nb] // 4]
        if over: put(False, "numa-nodes-bound", "", "writes %d node slots into a buffer of %d" % (max(over), sizes[nb] // 4))
        else: put(True, "numa-nodes-bound", "node slots stay inside the buffer", "")
        short = None
        for a, K in symb:      # a number of slots that depends on the length of the area
            if a <= top < N:
                d = f.d.diff(g.icmp("ult", f.add(f.K(a), K), cnt), c.F, c.AND(G, f.nz(f.arg(3, 32))))
                if d is None: top = 1 << 30
                else: short = d.text()
        put(True if top >= N else None if unk else False, "numa-nodes", "every slot names a node", "only the first %d node slots are set" % top if short is None else "fewer node slots are set than pages are listed: " + short)
        for x in vals:
            put(f.same(x.val, nv[0], c.T), "numa-node", "the node of the given CPU", "node slot set to %s" % f.s(x.val)[:80], x.site)
        for x in g.effects():
            if x.kind == "call" and x.name == "numa_node_of_cpu": put(f.same(x.args[0], f.arg(2, 32), c.T), "numa-cpu", "node of the given CPU", "asks for the node of %s" % f.s(x.args[0])[:60], x.site)
    returns(rep, m, put, pb, nb, sb)

def inv(f, g): return f.c.NOT(f.c.F)
def based(c, n, b):
    ls = list(c.leaves(n))
    return bool(ls) and all(any(len(mo) == 1 and c.alist[mo[0]] == ("alloca", b) for mo in p.d) for p in ls)
def call_guard(f, e):
    r = f.c.T
    for l, x in f.g.iter_guards(e.block): r = f.c.AND(r, x)
    return r

def returns(rep, m, put, pb, nb, sb):
    """error reporting, from the segments between accesses to the buffers and the request"""
    s = Seg(m.mod, FN, m.imm, m.st); g = s.g; c = s.c
    def root(v, seen=()):
        if v.kind != "local" or v.name in seen or v.name in g.pidx: return None
        d = g.defs[v.name]
        if d.op == "alloca": return d.res
        if d.op in ("getelementptr", "bitcast"): return root(d.args[0], seen + (v.name,))
        return None
    ncall = [i for b in g.cfg.rpo for i in g.f.bmap[b].insts if i.op == "call" and g.callee(i) == "numa_node_of_cpu"]
    def cut(i):
        if i.op == "call" and g.callee(i) in ("move_pages", "numa_move_pages"): return True
        if i.op == "load": return root(i.args[0]) in (pb, nb, sb)
        if i.op == "store": return root(i.args[1]) in (pb, nb, sb)
        return False
    try: segs = s.run(cut)
    except Cyclic as x: rep.und(P, "numa-report", FN, str(x)); return
    d = decide.Decider(c, 1, {}, 300)
    def imp(A, B):
        X = c.AND(A, c.NOT(B))
        if X is c.F: return True
        if d.feasible(X) is None: return True
        return False if all(c.blist[b][0] in ("eq", "ult", "slt", "bit0") for b in c.support(X)) else None
    from rules_set import vg_arg
    fl = g.icmp("eq", g.val(vg_arg(g, 3)), g.k(0, 32))
    for q in segs:
        if q.end.op == "unreachable": continue
        g.tmemo = q.env
        rv = g.val(q.end.args[0]) if q.end.op == "ret" else None
        neg = g.icmp("slt", rv, g.k(0, 32)) if rv is not None else None
        site = g.site(q.end)
        C = q.cond
        node = [c.leaf(c.var(32, ("call", "numa_node_of_cpu", g.callno[id(i)]))) for i in ncall]
        sv = [c.leaf(c.var(32, ("sv", i.res))) for i in ncall]
        unk = c.OR(*[g.icmp("slt", n, g.k(0, 32)) for n in node + sv]) if ncall else c.F
        if q.start is not None and q.start.op == "call":
            # the result of the request is not in the environment: it is the opaque value of the start
            R = c.leaf(c.var(64, ("sv", q.start.res))) if q.start.res else None
            if R is None: put(False, "numa-report", "", "the result of the request is ignored"); continue
            bad = g.icmp("slt", R, g.k(0, 64))
            if rv is None: put(imp(C, c.NOT(bad)), "numa-report", "a failed request ends the call", "goes on after a failed request", site)
            else:
                X = c.AND(C, bad)
                if X is not c.F:
                    w = d.feasible(X)
                    # -1 is what the request returns on failure
                    Y = c.AND(X, g.icmp("eq", R, g.k(-1, 64)))
                    put(imp(Y, neg), "numa-report", "a failed request is reported", "reports success after a failed request", site)
        elif q.start is None:
            if rv is not None:
                X = c.AND(C, c.OR(fl, unk))
                if X is not c.F: put(imp(X, neg), "numa-refuse", "no flags or unknown CPU gives an error", "reports success without flags or for an unknown CPU", site)
                X = c.AND(C, fl)
                if X is not c.F and d.feasible(X) is not None:
                    from rules_set import S as SS
                    es = [e for e in q.effs if e.op == "store" and is_errno(c, e.args[1])]
                    put(True if es and es[-1].args[0] is g.k(22, 32) else False, "numa-einval", "EINVAL without flags", "error code is not EINVAL without flags", site)
                if any(e.name == "numa_node_of_cpu" for e in q.effs): put(imp(C, c.NOT(fl)), "numa-early", "refused before anything is asked", "asks the kernel although no flags were given", site)
                Y = c.AND(C, c.NOT(fl), c.NOT(unk))
                if Y is not c.F: put(imp(Y, g.icmp("eq", rv, g.k(0, 32))), "numa-valid", "valid requests are not refused", "refuses a valid request", site)
            else:
                put(imp(C, c.NOT(fl)), "numa-refuse", "", "goes on without flags", site)
                if q.end.op == "call" : put(imp(C, c.NOT(unk)), "numa-refuse", "", "goes on for an unknown CPU", site)
        else:
            if q.end.op == "call" or (q.end.op == "store" and root(q.end.args[1]) == pb):
                # unknown CPU: some segment before this one must have tested the node
                pass
            # after the request only non-negative results reach another event (numa-report)
            for i in s.cuts:
                if i.op == "call" and i.res: C = c.AND(C, c.NOT(g.icmp("slt", c.leaf(c.var(64, ("sv", i.res))), g.k(0, 64))))
            if rv is not None:
                X = c.AND(C, unk)
                Y = c.AND(C, c.NOT(unk)) if c.AND(C, c.NOT(unk)) is not c.F else None
                if Y is not None: put(imp(Y, g.icmp("eq", rv, g.k(0, 32))), "numa-success", "success is reported as such", "reports an error although nothing failed: from %s when %s" % (q.start.op, c.s(C)[:150]), site)
                if X is not c.F and Y is None: put(imp(X, neg), "numa-refuse", "", "reports success for an unknown CPU", site)
    # an unknown CPU is refused before the request: the test dominates it
    if ncall:
        from vg import VG
        i = ncall[0]
        ok = None
        f = m.fa(FN, {})
        e = [x for x in f.g.effects() if x.kind == "call" and x.name in ("move_pages", "numa_move_pages")][0]
        G = f.g.full_guard(e.block) if hasattr(f.g, "full_guard") else f.c.T
        r = f.c.T
        for l, x in f.g.iter_guards(e.block): r = f.c.AND(r, x)
        nv = f.g.val(f.g._resval([x.inst for x in f.g.effects() if x.kind == "call" and x.name == "numa_node_of_cpu"][0]))
        bad = f.c.AND(r, f.g.icmp("slt", nv, f.K(0, 32)))
        put(bad is f.c.F or f.d.feasible(bad) is None, "numa-unknown", "an unknown CPU is refused before any request", "makes requests for an unknown CPU", e.site)

def is_errno(c, a):
    if a.b is None and len(a.leaf.d) == 1:
        (mo, co), = a.leaf.d.items()
        return len(mo) == 1 and c.alist[mo[0]][:2] == ("fcall", "__errno_location")
    return False

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(100000)
    from report import Report
    r = Report(); run(r)
    for k, v in sorted(r.obl.items()):
        if v[1] != "holds" or "-v" in sys.argv: print(v[1], k, v[2][:300])
    print(len(r.obl))
