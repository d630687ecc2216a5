"""Pool creation, attributes and accessors: C18 C20 C21 C23 C24."""
import mp, vg
from fa import Chk, FA
from report import Report, parallel
from rules_pool import errno_addr, path_between, guarded, ENOMEM, EINVAL
from rules_range import Ob, const

ATTR_FIELDS = ("init_set", "init_func", "init_priv", "robust_set", "type", "stride", "max_nr_cpus", "max_nr_ranges", "poison_set", "poison", "populate_policy")

class Mem:
    """content of memory at a constant offset from a base, from the writes of a view in program order"""
    def __init__(self, v, attr_base=None, loader=None):
        self.v = v; self.f = v.fa; self.c = v.c; self.loader = loader
    def off(self, addr, base):
        if addr.b is not None: return None
        d = self.f.sub(addr, base)
        if d.b is not None: return None
        x = self.c.scval(d.leaf) if self.c.cval(d.leaf) is not None else None
        return x
    def value(self, base, off, size, default, before=None, writes=None):
        """Node; None when a write cannot be decomposed"""
        f, c = self.f, self.c
        val = default
        for it in self.v.items:
            if before is not None and it.e.order is not None and it.e.order >= before: break
            if it.kind == "store":
                o = self.off(it.addr, base)
                if o is None or o + it.e.width <= off or o >= off + size: continue
                if o != off or it.e.width != size or it.loops: return None
                w = it.val
            elif it.kind == "call" and (it.name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or it.name in ("memcpy", "memset", "memmove")):
                o = self.off(it.args[0], base)
                n = const(f, it.args[2])
                if o is None: continue
                if n is None: return None
                if o + n <= off or o >= off + size: continue
                if o > off or o + n < off + size: return None
                if "memset" in it.name:
                    b = const(f, it.args[1])
                    if b is None: return None
                    w = f.K(int.from_bytes(bytes([b]) * size, "little"), size * 8)
                else:
                    src = it.args[1]
                    if src.b is not None: return None
                    w = self.read(src, off - o, size, it.e.order)
                    if w is None: return None
            else: continue
            if writes is not None: writes.append(it)
            val = c.ite(it.top, w, val) if val is not None else (w if it.top is c.T else None)
            if val is None: return None
        return val
    def read(self, src, delta, size, order):
        f, c = self.f, self.c
        ats = [a for a in c.atoms_of(src.leaf) if c.alist[a][0] == "alloca"]
        if ats:
            base = c.leaf(c.poly(64, {(ats[0],): 1}))
            o = self.off(src, base)
            if o is None: return None
            return self.value(base, o + delta, size, f.K(0, size * 8), order)
        return self.loader(f.add(src, f.K(delta)), size)

def number(v):
    for i, e in enumerate(v.g.effects()): e.order = i

def rule_create(rep, m, scen):
    fn = "rseq_mempool_create"
    rep.analysed(fn)
    offs = {m.o("rseq_mempool_attr", p): p for p in ATTR_FIELDS}
    size = {p: m.st["rseq_mempool_attr"]["members"][p][1] for p in ATTR_FIELDS}
    state = {}
    def ro(p, w):
        # loads through the attr argument
        a = state.get("a2")
        if a is None:
            return None
        d = dict(p.d)
        if d.pop((a,), 0) != 1 or any(k for k in d): return None
        o = d.get((), 0)
        nm = offs.get(o)
        if nm is None or size[nm] * 8 != w: return ("attr_in", o, "in_%d" % o), False
        return ("attr_in", o, "in_" + nm), nm.endswith("_set")
    H = {}
    R = lambda *xs: (lambda env, addr, nm: env.r.choice(xs))
    for p in ATTR_FIELDS:
        if p.endswith("_set"): H[("field", "attr_in", "in_" + p)] = R(0, 1)
    H[("field", "attr_in", "in_type")] = R(scen["type"])
    H[("field", "attr_in", "in_stride")] = lambda env, addr, nm: env.r.choice((0, 0, 4096, 4096, 8192, 65536, 65536, 1 << env.r.randrange(64), 2048, 12288, 4095, env.r.getrandbits(20), (1 << 63), (1 << 64) - 1))
    H[("field", "attr_in", "in_max_nr_cpus")] = lambda env, addr, nm: env.r.choice((0, 0, 1, 2, 5, 64, -1, -(1 << 31), -7))
    H[("field", "attr_in", "in_populate_policy")] = R(0, 1, 0, 1, 2, 0xffffffff)
    H[("arg", 1)] = lambda env: env.r.choice((0, 1, 7, 8, 9, 16, 100, 4096, 65536, 65537, env.r.getrandbits(17), 1 << env.r.randrange(64), (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1))
    H[("arg", 0)] = lambda env: env.r.choice((0, env.fresh_ptr())); H[("fixarg", 0)] = True
    H[("arg", 2)] = lambda env: env.fresh_ptr() if scen["attr"] else 0; H[("fixarg", 2)] = True
    H[("call", "rseq_get_max_nr_cpus")] = lambda env: env.r.choice((0, 1, 4, 256))
    H[("call", "calloc")] = lambda env: env.r.choice((0, env.fresh_ptr(), env.fresh_ptr()))
    H[("call", "strdup")] = lambda env: env.r.choice((0, env.fresh_ptr()))
    H[("call", "pthread_mutex_init")] = lambda env: 0
    H[("fixres", "in_stride")] = True
    if m.creator: H[("call", m.creator)] = lambda env: env.r.choice((0, env.fresh_base() - m.RS))
    # the arg atom must exist before loads are evaluated
    from vg import Ctx
    import decide
    f = FA.__new__(FA)
    ctx = Ctx(); state["a2"] = ctx.atom(("arg", 2, None))
    f.mod = m.mod; f.name = fn; f.structs = m.st
    f.g = vg.VG(m.mod, fn, ctx, m.imm, m.st, roaddr=ro)
    f.c = f.g.c; f.d = decide.Decider(f.c, 1, H, 400, {})
    c = f.c
    if const(f, f.K(0)) is None: return
    name, il0, attr = f.arg(0), f.arg(1), f.arg(2)
    probe = c.single(attr.leaf)
    if probe != state["a2"]: rep.und(("C23", "C24"), "create", fn, "argument naming"); return
    def A(p):
        a = c.atom(("load", f.add(attr, f.K(m.o("rseq_mempool_attr", p))).leaf, size[p] * 8, None))
        c.names.setdefault(a, ("attr_in", m.o("rseq_mempool_attr", p), "in_" + p))
        if p.endswith("_set"): c.bool01.add(a)
        return c.leaf(c.poly(size[p] * 8, {(a,): 1}))
    has = scen["attr"]
    IN = {p: (A(p) if has else f.K(0, size[p] * 8)) for p in ATTR_FIELDS}
    page = c.leaf(c.var(64, ("page",)))
    small = f.ult(il0, f.K(8))
    il1 = f.ite(small, f.K(8), il0)
    clog2 = lambda x: c.apply(("fcall", "clog2", 32), lambda *ps: c.var(32, ("fcall", "clog2", tuple(ps))), x)
    order = clog2(il1)
    il = f.shl(f.K(1), f.sext(order))
    huge = c.NOT(f.ult(il0, f.K((1 << 63) + 1)))
    auto = None
    ac = [e for e in f.g.effects() if e.kind == "call" and e.name == "rseq_get_max_nr_cpus"]
    typ = scen["type"]
    G = f.nz(attr) if has else f.isz(attr)
    if has: G = c.AND(G, f.eq(IN["type"], f.K(typ, 32)))
    pol = IN["populate_policy"]
    rej = c.OR(huge, c.NOT(c.OR(f.isz(pol), f.eq(pol, f.K(1, 32)))))
    ncpu = IN["max_nr_cpus"]
    if typ == 0:
        rej = c.OR(rej, f.slt(ncpu, f.K(0, 32)))
        if not ac: rep.bad(("C24",), "auto-cpus", fn, "the number of CPUs is not detected when none is given")
        else:
            auto = ac[0].res
            rej = c.OR(rej, c.AND(f.isz(ncpu), f.isz(auto)))
            ncpu2 = f.ite(f.isz(ncpu), auto, ncpu)
        pol2 = pol
    else:
        ncpu2 = f.K(1, 32); pol2 = f.K(1, 32)
    if typ == 0 and auto is None: return
    st = IN["stride"]; st2 = f.ite(f.isz(st), f.K(1 << 16), st)
    rej = c.OR(rej, f.ult(st2, il), f.ult(st2, page), c.NOT(f.isz(f.band(st2, f.sub(st2, f.K(1))))))
    ps2 = f.ite(f.nz(IN["robust_set"]), f.K(1, 8), IN["poison_set"])
    defp = f.ite(f.isz(pol2), f.K(0x5555555555555555), f.K(0))
    po2 = f.ite(c.AND(f.nz(IN["robust_set"]), f.isz(IN["poison_set"])), defp, IN["poison"])
    exp = dict(IN); exp.update(stride=st2, max_nr_cpus=ncpu2, populate_policy=pol2, poison_set=ps2, poison=po2)
    lbl = scen["name"]
    # ---- rejected
    def rejected():
        Gr = c.AND(G, rej)
        if not f.feasible(Gr): return
        v = f.view(Gr, None, {}, True); number(v)
        k = Chk(rep, v, lbl + ", invalid arguments"); o = Ob(k)
        pr = ("C23", "C24")
        o.eq(pr, "reject-ret", v.R(f.g.ret_value()), f.K(0), Gr, "invalid arguments give NULL")
        k.store(("C23",), "reject-errno", errno_addr(f), f.K(EINVAL, 32), what="errno", width=4)
        for it in v.calls("calloc", "malloc", m.creator or "", "strdup"): k.bad(("C23", "C20"), "reject-noeffect", "%s is called for refused arguments" % it.name, it.e.site)
    guarded(rep, fn, rejected, ("C23",), lbl)
    # ---- accepted
    def accepted():
        Ga = c.AND(G, c.NOT(rej))
        v = f.view(Ga, None, {}, True); number(v)
        k = Chk(rep, v, lbl + ", valid arguments"); o = Ob(k)
        k.known_calls = {m.creator, "rseq_mempool_destroy", "calloc", "strdup", "pthread_mutex_init", "rseq_get_max_nr_cpus"}
        cal = v.calls("calloc", "malloc", "zalloc")
        pc = [x for x in cal if x.name == "calloc"]
        if len(pc) != 1 or pc[0].loops: k.und(("C24", "C20"), "create-alloc", "%d allocations" % len(cal)); return
        x = pc[0]; P = x.res
        o.holds(("C23", "C24"), "create-alloc", x.top, Ga, "valid arguments are accepted", x.e.site)
        a0, a1 = const(f, x.args[0]), const(f, x.args[1])
        if a0 is not None and a1 is not None:
            if a0 * a1 < m.st["rseq_mempool"]["size"]: k.bad(("C24",), "create-alloc", "pool structure allocated with %d bytes" % (a0 * a1), x.e.site)
            else: k.ok(("C24",), "create-alloc", "pool structure")
        Gn = c.AND(Ga, f.isz(P)); Gp = c.AND(Ga, f.nz(P))
        ret = v.R(f.g.ret_value())
        o.eq(("C20",), "nomem-ret", ret, f.K(0), Gn, "no pool when memory is exhausted")
        cr = v.calls(m.creator) if m.creator else []
        mem = Mem(v, loader=lambda ad, sz: loadro(f, ad, sz, m, A, attr))
        crord = min((y.e.order for y in cr), default=None)
        def field(struct, path, expv, props, text):
            off = m.o(struct, path) + (m.o("rseq_mempool", "attr") if struct == "rseq_mempool_attr" else 0)
            sz = field_size(m, struct, path)
            ws = []
            val = mem.value(P, off, sz, f.K(0, sz * 8), crord, ws)
            if val is None: k.und(props, "pool-" + path, "writes not recognised"); return
            for w in ws: w.claimed = True
            o.eq(props, "pool-" + path, val, expv, Gp, text, ws[-1].e.site if ws else x.e.site)
            # not changed later
            ws2 = []
            val2 = mem.value(P, off, sz, f.K(0, sz * 8), None, ws2)
            for w in ws2: w.claimed = True
            if val2 is None or val2 is not val: o.eq(props, "pool-" + path + "-final", val2, expv, Gp, text + " (final)", ws2[-1].e.site) if val2 is not None else None
        AP = {"stride": ("C24", "C19"), "max_nr_cpus": ("C24", "C19"), "poison": ("C18", "C24", "C17"), "poison_set": ("C18", "C24", "C17"), "robust_set": ("C17", "C24"), "populate_policy": ("C24", "C22"), "max_nr_ranges": ("C24",)}
        for p in ATTR_FIELDS: field("rseq_mempool_attr", p, exp[p], AP.get(p, ("C24",)), "pool attribute %s" % p)
        field("rseq_mempool", "item_len", il, ("C14", "C24", "C23", "C28"), "item length rounded up to a power of two")
        field("rseq_mempool", "item_order", order, ("C14", "C24", "C25", "C28"), "item order")
        field("rseq_mempool", "free_list_head", f.K(0), ("C14",), "empty free list")
        field("rseq_mempool", "nr_ranges", f.K(0), ("C24",), "no range yet")
        mi = v.calls("pthread_mutex_init")
        if mi:
            for y in mi: o.eq(("C13",), "lock-init", y.args[0], f.faddr(P, "rseq_mempool", "lock"), c.AND(Gp, y.top), "pool lock initialised", y.e.site)
            t = c.F
            for y in mi: t = c.OR(t, y.top)
            o.holds(("C13",), "lock-init", t, Gp, "pool lock initialised")
        else: k.bad(("C13",), "lock-init", "the pool lock is never initialised") if not k.unknown_writes() else k.und(("C13",), "lock-init")
        if len(cr) != 1: k.und(("C20", "C24"), "create-range", "%d range creations" % len(cr)); return
        y = cr[0]
        o.eq(("C24", "C19"), "create-range", y.args[0], P, c.AND(Gp, y.top), "first range is created for the pool", y.e.site)
        Gy = Gp         # steps made before the range is created succeeded
        for z in v.calls("strdup"):
            if z.e.order < y.e.order: Gy = c.AND(Gy, c.NOT(c.AND(z.top, f.isz(z.res))))
        o.holds(("C24", "C20"), "create-range", y.top, Gy, "first range is created", y.e.site)
        # list initialised before
        for off2 in (0, 8):
            lv = mem.value(P, m.o("rseq_mempool", "range_list") + off2, 8, f.K(0), crord)
            if lv is None: k.und(("C21",), "list-init", "")
            else: o.eq(("C21", "C14"), "list-init", lv, f.faddr(P, "rseq_mempool", "range_list"), Gp, "range list starts empty")
        nm = v.calls("strdup")
        rng = y.res
        ok = f.nz(rng)
        nameneeded = f.nz(name)
        if nm:
            z = nm[0]
            o.eq(("C24",), "name", z.args[0], name, c.AND(Gp, z.top), "pool name copied", z.e.site)
            ok = c.AND(ok, c.NOT(c.AND(z.top, f.isz(z.res))))
        o.eq(("C20", "C24"), "create-ret", ret, P, c.AND(Gp, ok), "the pool is returned when every step succeeds")
        Gf = c.AND(Gp, c.NOT(ok))
        o.eq(("C20",), "fail-ret", ret, f.K(0), Gf, "NULL is returned when a step fails")
        k.store(("C20",), "fail-errno", errno_addr(f), f.K(ENOMEM, 32), cond=c.AND(f.nz(P), c.NOT(ok)), what="errno", width=4)
        de = v.calls("rseq_mempool_destroy"); t = c.F
        for d in de:
            d.claimed = True
            o.eq(("C20",), "fail-destroy", d.args[0], P, c.AND(Gp, d.top), "the half-made pool is destroyed", d.e.site)
            t = c.OR(t, d.top)
        fr = [d for d in v.calls("free")]
        if de or not fr:
            if not k.unknown_writes() or de:
                o.holds(("C20",), "fail-destroy", t, Gf, "resources are released when a step fails", de[0].e.site if de else None)
                o.holds(("C20", "C21"), "fail-destroy-only", c.NOT(t), c.AND(Gp, ok), "a returned pool is not destroyed")
            else: k.und(("C20",), "fail-destroy", "release not recognised")
        else: k.und(("C20",), "fail-destroy", "released by hand")
        # linked
        if not m.creator_links:
            node = f.faddr(rng, "rseq_mempool_range", "node"); la = f.faddr(P, "rseq_mempool", "range_list")
            ms = [s for s in v.stores() if s.e.order > y.e.order and f.same(s.addr, la, c.AND(Gp, s.top))]
            t = c.F
            for s in ms:
                s.claimed = True
                o.eq(("C21", "C14"), "range-linked", s.val, node, c.AND(Gp, s.top), "first range is put in the list", s.e.site); t = c.OR(t, s.top)
            if ms: o.holds(("C21", "C14"), "range-linked", t, c.AND(Gy, f.nz(rng)), "first range is put in the list")
            else: k.bad(("C21", "C14"), "range-linked", "the first range is never put in the pool's list", y.e.site) if not [u for u in k.unknown_writes() if u.kind == "store"] else k.und(("C21",), "range-linked")
    guarded(rep, fn, accepted, ("C24", "C20"), lbl)

def field_size(m, struct, path):
    cur = struct
    o, sz, ty = m.st[cur]["members"][path.split(".")[0]]
    return sz

def loadro(f, ad, sz, m, A, attr):
    c = f.c
    d = f.sub(ad, attr)
    o = c.cval(d.leaf) if d.b is None else None
    if o is None: return None
    for p in ATTR_FIELDS:
        if m.o("rseq_mempool_attr", p) == o: return A(p) if m.st["rseq_mempool_attr"]["members"][p][1] == sz else None
    return None

# ------------------------------------------------------------------ attribute setters
SETTERS = {
    "rseq_mempool_attr_set_init": [("init_set", 1), ("init_func", "a1"), ("init_priv", "a2"), ("populate_policy", 0)],
    "rseq_mempool_attr_set_robust": [("robust_set", 1)],
    "rseq_mempool_attr_set_percpu": [("type", 0), ("stride", "a1"), ("max_nr_cpus", "a2")],
    "rseq_mempool_attr_set_global": [("type", 1), ("stride", "a1"), ("max_nr_cpus", 0)],
    "rseq_mempool_attr_set_max_nr_ranges": [("max_nr_ranges", "a1")],
    "rseq_mempool_attr_set_poison": [("poison_set", 1), ("poison", "a1")],
    "rseq_mempool_attr_set_populate_policy": [("populate_policy", "a1")],
}
def rule_setters(rep, m):
    for fn, sets in SETTERS.items():
        rep.analysed(fn)
        f = FA(m.mod, fn, m.st, lambda t: False, {("arg", 0): lambda e: e.r.choice((0, e.fresh_ptr()))})
        c = f.c; a0 = f.arg(0)
        null = f.isz(a0)
        v = f.view(null); k = Chk(rep, v, "attr is NULL"); o = Ob(k)
        o.eq(("C23",), "attr-null-ret", v.R(f.g.ret_value()), f.K((1 << 32) - 1, 32), null, "NULL attr gives -1")
        k.store(("C23",), "attr-null-errno", errno_addr(f), f.K(EINVAL, 32), what="errno", width=4)
        k.rest(("C23",), "attr-null-noeffect")
        G = f.nz(a0)
        v = f.view(G); k = Chk(rep, v, "valid attr"); o = Ob(k)
        props = ("C24",) + (("C18",) if "poison" in fn else ()) + (("C17",) if "robust" in fn else ())
        o.eq(props + ("C23",), "attr-ret", v.R(f.g.ret_value()), f.K(0, 32), G, "returns 0")
        for p, val in sets:
            off, sz, ty = m.o("rseq_mempool_attr", p), m.st["rseq_mempool_attr"]["members"][p][1], None
            if isinstance(val, str): e = f.arg(int(val[1:]))
            else: e = f.K(val, sz * 8)
            ms = v.find_store(f.add(a0, f.K(off)))
            if not ms and val == 0 and p == "max_nr_cpus" and fn.endswith("global"): continue     # overridden at creation anyway
            k.store(props, "attr-" + p, f.add(a0, f.K(off)), e, what=p, width=sz)
        k.rest(props, "attr-other-writes")
    # allocation of attributes
    fn = "rseq_mempool_attr_create"; rep.analysed(fn)
    f = FA(m.mod, fn, m.st, lambda t: False, {})
    v = f.view(f.c.T); k = Chk(rep, v, "")
    cs = v.calls("calloc")
    if len(cs) == 1:
        a, b = const(f, cs[0].args[0]), const(f, cs[0].args[1])
        if a is not None and b is not None and a * b < m.st["rseq_mempool_attr"]["size"]: k.bad(("C24",), "attr-create", "attributes allocated with %d bytes" % (a * b), cs[0].e.site)
        else: k.ok(("C24",), "attr-create", "zeroed attributes: percpu, default stride, auto CPUs, COW_INIT, not robust, no poison")
        if v.R(f.g.ret_value()) is not cs[0].res: k.und(("C24",), "attr-create", "returned value")
    elif v.calls("malloc"): k.und(("C24",), "attr-create", "not zeroed by calloc")
    else: k.und(("C24",), "attr-create", "")
    # get_max_nr_cpus
    fn = "rseq_mempool_get_max_nr_cpus"; rep.analysed(fn)
    f = FA(m.mod, fn, m.st, m.imm, {("field", "rseq_mempool", "attr.type"): lambda e, a, n: e.r.choice((0, 1))})
    c = f.c; P = f.arg(0)
    bad = c.OR(f.isz(P), f.nz(f.fld(P, "rseq_mempool", "attr.type")))
    for G, lb in ((c.AND(f.isz(P)), "NULL pool"), (c.AND(f.nz(P), f.nz(f.fld(P, "rseq_mempool", "attr.type"))), "global pool")):
        v = f.view(G); k = Chk(rep, v, lb); o = Ob(k)
        o.eq(("C23", "C24"), "get-max-ret", v.R(f.g.ret_value()), f.K((1 << 32) - 1, 32), G, "gives -1")
        k.store(("C23",), "get-max-errno", errno_addr(f), f.K(EINVAL, 32), what="errno", width=4)
    G = c.NOT(bad); v = f.view(G); k = Chk(rep, v, "percpu pool"); o = Ob(k)
    o.eq(("C24",), "get-max-ret", v.R(f.g.ret_value()), f.fld(P, "rseq_mempool", "attr.max_nr_cpus"), G, "the number of CPUs of the pool")

SCEN = [{"attr": 0, "type": 0, "name": "default attributes"}, {"attr": 1, "type": 0, "name": "percpu"}, {"attr": 1, "type": 1, "name": "global"}]

def run(rep, m=None):
    m = m or mp.MP()
    if not hasattr(m, "creator_links"):
        import rules_pool
        rules_pool.links(m)
    parallel(rep, [lambda r, s=s: rule_create(r, m, s) for s in SCEN] + [lambda r: rule_setters(r, m)])
    return m

if __name__ == "__main__":
    import time, collections; t = time.time()
    rep = Report()
    run(rep)
    for k, v in rep.obl.items():
        if v[1] != "holds": print(v[1].upper(), sorted(v[0]), k, str(v[2])[:600])
    print(collections.Counter(v[1] for v in rep.obl.values()), time.time() - t)
