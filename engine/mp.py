"""Model of the memory pool: module, structure layout, data-structure invariants used by the filter."""
import cc, vg
from fa import FA

SRC = "src/rseq-mempool.c"
DEF = ("-DHAVE_LIBNUMA=1",)
LOCK, UNLOCK = "pthread_mutex_lock", "pthread_mutex_unlock"

def creators(raw, g):
    """topmost internal functions that map memory and take no lock themselves"""
    mm = {n for n in g if "mmap" in cc.reach(g, [n]) and raw.funcs[n].linkage == "internal" and LOCK not in cc.reach(g, [n])}
    if "rseq_mempool_range_create" in mm: return {"rseq_mempool_range_create"}
    return {n for n in mm if any(n in g[x] and x not in mm for x in g)}

def allocators(raw, g):
    """topmost internal functions that lock a pool and are shared by pool and set allocation"""
    pool = [n for n in ("rseq_mempool_percpu_malloc", "rseq_mempool_percpu_zmalloc", "rseq_mempool_percpu_malloc_init") if n in g]
    sets = [n for n in ("rseq_mempool_set_percpu_malloc", "rseq_mempool_set_percpu_zmalloc", "rseq_mempool_set_percpu_malloc_init") if n in g]
    a = cc.reach(g, pool); b = cc.reach(g, sets)
    lk = {n for n in a & b if n in raw.funcs and raw.funcs[n].linkage == "internal" and LOCK in cc.reach(g, [n])}
    return {n for n in lk if not any(n in g[x] for x in lk if x != n)}

def keep_c(raw, g): return creators(raw, g)
def keep_s(raw, g): return creators(raw, g) | allocators(raw, g)

class MP:
    def __init__(self, mode="c"):
        self.mod = cc.module(SRC, DEF, False, keep_c if mode == "c" else keep_s)
        self.st = self.mod.di_structs()
        self.mut_pool = {self.o("rseq_mempool", "nr_ranges"), self.o("rseq_mempool", "free_list_head")} | {self.o("rseq_mempool", "range_list") + i for i in (0, 8)}
        r = lambda f: self.o("rseq_mempool_range", f)
        self.imm_range = {r("pool"), r("header"), r("base"), r("init"), r("mmap_addr"), r("mmap_len"), r("alloc_bitmap")}
        self.RS = self.st["rseq_mempool_range"]["size"]
        self.creator = None
        ks = creators(self.mod.raw, self.mod.cg)
        if len(ks) == 1: self.creator = next(iter(ks))
    def o(self, s, p): return vg.field_of(self.mod, self.st, s, p)[0]
    def imm(self, tag):
        s, o, a = tag
        if s == "rseq_mempool": return o not in self.mut_pool
        if s == "rseq_mempool_range": return o in self.imm_range
        if s == "rseq_mempool_attr": return True
        return False
    def hints(self):
        H = {}
        RS = self.RS
        def pf(path, fn):
            H[("field", "rseq_mempool", path)] = fn
            if path.startswith("attr."): H[("field", "rseq_mempool_attr", path[5:])] = fn
        for f, k in (("attr.stride", "stride"), ("attr.max_nr_cpus", "ncpu"), ("item_order", "item_order"), ("item_len", "item_len"), ("attr.robust_set", "robust"),
                ("attr.populate_policy", "policy"), ("attr.poison_set", "poison_set"), ("attr.poison", "poison"), ("attr.type", "type"), ("attr.init_set", "init_set"),
                ("attr.max_nr_ranges", "max_nr_ranges"), ("nr_ranges", "nr_ranges"), ("name", "name")):
            pf(f, lambda env, addr, nm, k=k: env.cfg[k])
        def item(env):
            s, il = env.cfg["stride"], env.cfg["item_len"]
            return env.fresh_base() + il * env.r.randrange(max(1, s // il))
        def delta(env):
            n, s = env.cfg["ncpu"], env.cfg["stride"]
            p = env.cfg["policy"] == 0
            return n * s + (s if p else 0) if env.cfg["robust"] else (n * s if p else 0)
        self.item, self.delta = item, delta
        H[("field", "rseq_mempool", "free_list_head")] = lambda env, addr, nm: env.r.choice((0, item(env) + delta(env)))
        H[("field", "free_list_node", "next")] = lambda env, addr, nm: env.r.choice((0, item(env) + delta(env)))
        def lh(env, addr, nm):
            if env.r.random() < 0.3: return env.poolptr
            return env.fresh_base() - RS
        H[("field", "list_head", "next")] = lh; H[("field", "list_head", "prev")] = lh
        H[("field", "rseq_mempool", "range_list.next")] = lh; H[("field", "rseq_mempool_range", "node.next")] = lh
        rb = lambda addr, path: addr - self.o("rseq_mempool_range", path)
        H[("field", "rseq_mempool_range", "pool")] = lambda env, addr, nm: env.poolptr
        H[("field", "rseq_mempool_range", "base")] = lambda env, addr, nm: rb(addr, "base") + RS
        H[("field", "rseq_mempool_range", "init")] = lambda env, addr, nm: rb(addr, "init") + RS + env.cfg["ncpu"] * env.cfg["stride"] if env.cfg["policy"] == 0 else 0
        H[("field", "rseq_mempool_range", "header")] = lambda env, addr, nm: rb(addr, "header") + RS - 2 * env.page
        H[("field", "rseq_mempool_range", "mmap_addr")] = lambda env, addr, nm: rb(addr, "mmap_addr") + RS - 2 * env.page
        H[("field", "rseq_mempool_range", "mmap_len")] = lambda env, addr, nm: 2 * env.page + env.cfg["stride"] * (env.cfg["ncpu"] + (env.cfg["policy"] == 0) + env.cfg["robust"])
        def bm(env, addr, nm): return (0x600000000000 + (rb(addr, "alloc_bitmap") & 0xffffffffff0)) if env.cfg["robust"] else 0
        H[("field", "rseq_mempool_range", "alloc_bitmap")] = bm
        def nu(env, addr, nm):
            s, il = env.cfg["stride"], env.cfg["item_len"]
            return env.r.choice((0, il, s - il, s, s, il * env.r.randrange(s // il + 1)))
        H[("field", "rseq_mempool_range", "next_unused")] = nu
        if self.creator: H[("call", self.creator)] = lambda env: env.r.choice((0, env.fresh_base() - RS))
        H["range_size"] = RS
        return H
    def fa(self, fname, args=None, tries=400):
        H = self.hints()
        for i, fn in (args or {}).items():
            H[("arg", i)] = fn; H[("fixarg", i)] = True
        return FA(self.mod, fname, self.st, self.imm, H, tries=tries)
    # ---------------------------------------------------------------- expected terms
    def P(self, f, P): return Pool(self, f, P)

class Pool:
    """expected terms about the pool at address term P, in function analysis f"""
    def __init__(self, m, f, P):
        self.m, self.f, self.p = m, f, P
        x = lambda path: f.fld(P, "rseq_mempool", path)
        self.stride = x("attr.stride"); self.ncpu = f.sext(x("attr.max_nr_cpus")); self.item_len = x("item_len"); self.item_order = f.sext(x("item_order"))
        self.robust = f.nz(x("attr.robust_set")); self.cowinit = f.isz(x("attr.populate_policy")); self.poison_set = f.nz(x("attr.poison_set")); self.poison = x("attr.poison")
        self.max_nr_ranges = x("attr.max_nr_ranges")
        self.head_addr = f.faddr(P, "rseq_mempool", "free_list_head")
        self.lock = f.faddr(P, "rseq_mempool", "lock")
        self.list = f.faddr(P, "rseq_mempool", "range_list")
    def delta(self):
        f = self.f
        ns = f.mul(self.ncpu, self.stride)
        return f.ite(self.robust, f.add(ns, f.ite(self.cowinit, self.stride, f.K(0))), f.ite(self.cowinit, ns, f.K(0)))
    def rng(self, R): return Range(self, R)

class Range:
    def __init__(self, pool, R):
        f = pool.f; self.r = R
        y = lambda path: f.fld(R, "rseq_mempool_range", path)
        self.base = y("base"); self.init = y("init"); self.bitmap = y("alloc_bitmap"); self.pool = y("pool")
        self.next_unused_addr = f.faddr(R, "rseq_mempool_range", "next_unused")
