"""rseq.c: registration, one-time initialisation, feature size, queries (C09 C10 C11 C12), from all acyclic paths of
each (loop-free) function with the internal helpers inlined."""
import re
import cc, vg, decide
from seg import Seg, Cyclic
vg.PURE_CALLS.add("getauxval")
SRC = "src/rseq.c"
NR_RSEQ, NR_GETCPU, SIG, AT_FS, AT_AL = 334, 309, 0x53053053, 27, 28
ORIGF, ORIGA = 20, 32
EINVAL, ENOSYS = 22, 38
ALL = ("C09", "C10", "C11", "C12")

def hints():
    def aux(env, k, w): return None
    H = {}
    return H

class E(decide.Env): pass

class F:
    def __init__(self, m, fn, fwd):
        self.m, self.fn = m, fn
        self.s = Seg(m, fn, None, m.di_structs(), fwd=fwd, loads=True); self.g = self.s.g; self.c = self.s.c
        self.d = decide.Decider(self.c, 3, {("fcallx", "getauxval"): lambda env: env.r.choice((0, 20, 24, 28, 32, 33, 40, 64, 256, 1024))}, 500)
        self.paths = self.s.run(lambda i: False)
        self.live = [q for q in self.paths if q.end.op == "ret"]
    def imp(self, A, B, base=None):
        X = self.c.AND(A, self.c.NOT(B))
        if X is self.c.F: return True
        if self.d.feasible(X) is None: return True if self.d.feasible(A if base is None else base) is not None else None
        return False if all(self.c.blist[b][0] in ("eq", "ult", "slt", "bit0") for b in self.c.support(X)) else None
    def same(self, A, B, C): return A is B or self.d.diff(A, B, C) is None
    def ret(self, q): self.g.tmemo = q.env; return self.g.val(q.end.args[0])
    def eq(self, n, v): return self.c.apply(("eqc", v), lambda p: self.c.beq(p, self.c.const(p.w, v)), n)
    def gname(self, a):
        if a.b is None:
            x = self.c.single(a.leaf)
            if x is not None and self.c.alist[x][0] == "global": return self.c.alist[x][1]
        return None
    def kernel_size(self):
        """getauxval(AT_RSEQ_FEATURE_SIZE) ? : 20, 64 bits"""
        c = self.c; a = c.leaf(c.var(64, ("fcall", "getauxval", (c.const(64, AT_FS),))))
        return c.ite(self.eq(a, 0), c.leaf(c.const(64, ORIGF)), a)
    def trunc(self, n, w): return self.c.apply(("trunc", w), lambda p: self.g._trunc(p, w), n)
    def ult(self, a, b): return self.g.icmp("ult", a, b)

def isbar(e):
    if e.op == "fence": return True
    if e.op in ("call", "callbr") and e.name == "asm": return "~{memory}" in e.inst.extra[2]
    return False
def strong(i): return "volatile" in (i.attrs.get("flags") or ()) or "atomic" in (i.attrs.get("flags") or ())

class V:
    def __init__(self, rep, where): self.rep, self.where = rep, where
    def put(self, v, props, rule, good, bad, site):
        if v is True: self.rep.ok(props, rule, self.where, good)
        elif v is False: self.rep.bad(props, rule, "%s: %s" % (self.where, site), bad, site)
        else: self.rep.und(props, rule, self.where, bad + " (not resolved)")

def internal_globals(m):
    """internal globals only used by loads and stores of the module"""
    out = {n for n, t in m.globals.items() if re.match(r"(dso_local )?internal ", t) and "constant" not in t.split("{")[0][:60] and "thread_local" not in t}
    for f in m.funcs.values():
        for b in f.blocks:
            for i in b.insts:
                for k, a in enumerate(i.args):
                    if a.kind == "global" and a.name in out:
                        if not (i.op == "load" or i.op == "store" and k == 1): out.discard(a.name)
                if i.op == "phi":
                    for a, p in i.extra:
                        if a.kind == "global": out.discard(a.name)
    return out

def gstr(m, n):
    t = m.globals.get(n, "")
    x = re.search(r'c"((?:[^"\\]|\\.)*)"', t)
    return x.group(1).replace("\\00", "") if x else None

def run(rep, shared=None):
    m = cc.module(SRC)
    ig = internal_globals(m)
    reg, unreg = "rseq_register_current_thread", "rseq_unregister_current_thread"
    for f in (reg, unreg, "rseq_available", "rseq_fallback_current_cpu", "rseq_fallback_current_node"): rep.analysed(f)
    try: U = F(m, unreg, ig)
    except Cyclic as e: rep.und(("C09",), "register", unreg, str(e)); return
    try: Rg = F(m, reg, ig)
    except Cyclic as e: rep.und(("C09", "C10", "C11"), "register", reg, str(e)); return
    done = None
    for q in Rg.paths:
        for e in q.effs:
            if e.op == "load" and Rg.gname(e.args[0]) in ig: done = Rg.gname(e.args[0]); break
        if done: break
    def flags(X): return {X.gname(e.args[0]) for q in X.paths for e in q.effs if e.op == "load" and X.g.width(e.inst.ty) <= 32} & ig
    own = flags(U)
    if len(own) != 1:
        try: own = flags(F(m, "rseq_available", ig)) - {done}
        except Cyclic: own = set()
        if len(own) != 1: own = flags(Rg) - {done}
    if len(own) != 1: rep.und(("C09",), "ownership", unreg, "ownership flag not identified: %s" % sorted(own)); return
    own = own.pop()
    lens = {}
    for fn, X, flag in ((reg, Rg, 0), (unreg, U, 1)): lens[fn] = registration(rep, m, fn, X, flag, own, ig)
    if lens[reg] is not None and lens[unreg] is not None:
        # one length for both operations: compare in one context by evaluation
        ok = same_len(Rg, lens[reg], U, lens[unreg])
        V(rep, reg).put(ok, ("C09",), "reg-length", "register and unregister use the same length", "register and unregister use different lengths: %s / %s" % (Rg.c.s(lens[reg])[:80], U.c.s(lens[unreg])[:80]), reg)
    if done: initonce(rep, m, reg, Rg, own, done, ig)
    else: rep.und(("C10",), "init", reg, "initialisation flag not identified")
    ct = [x for x in re.findall(r"@([\w.]+)", m.globals.get("llvm.global_ctors", "")) if x in m.funcs]
    for x in ct:
        if done:
            try: initonce(rep, m, x, F(m, x, ig), own, done, ig)
            except Cyclic as e: rep.und(("C10",), "init", x, str(e))
    writers(rep, m, own, done, reg, ct, ig)
    available(rep, m, own, ig)
    fallback(rep, m, ig)

def same_len(A, a, B, b):
    import random
    for i in range(200):
        r = random.Random(i); v = r.choice((0, 20, 28, 32, 33, 40, 64, 100, 512, 1024))
        ea = decide.Env(A.c, random.Random(i), {("fcallx", "getauxval"): lambda env: v}, None); eb = decide.Env(B.c, random.Random(i + 7), {("fcallx", "getauxval"): lambda env: v}, None)
        if ea.node(a) != eb.node(b): return False
    return True

def registration(rep, m, fn, X, flag, own, ig):
    v = V(rep, fn); c = X.c; g = X.g; P9 = ("C09",)
    ln = None; seen = False
    for q in X.paths:
        ld = [e for e in q.effs if e.op == "load" and X.gname(e.args[0]) == own]
        sy = [e for e in q.effs if e.op == "call" and e.name == "syscall"]
        sy = [e for e in sy if X.same(e.args[0], g.k(NR_RSEQ), c.T)] 
        site = g.site(sy[0].inst) if sy else g.site(q.end)
        if sy and not ld: v.put(False, P9, "reg-owner", "", "calls the kernel without looking who owns the registration", site); continue
        if not ld and q.end.op == "ret": v.put(False, P9, "reg-owner", "", "returns without looking who owns the registration", site); continue
        if not ld: continue
        lib = X.eq(q.env[ld[-1].res], 0)         # 0: the C library owns the registration
        if sy:
            seen = True
            v.put(X.imp(sy[0].cond, c.NOT(lib)), P9, "reg-owner", "the kernel is called only when this library owns the registration", "calls the kernel although the C library owns the registration", site)
            if len(sy) > 1: v.put(False, P9, "reg-once", "", "calls the kernel more than once", g.site(sy[1].inst)); continue
            a = sy[0].args
            area = X.gname(a[1]); t = m.globals.get(area or "", "")
            v.put(None if area is None else "thread_local" in t, P9, "reg-area", "the calling thread's own area is given", "the area given to the kernel is not per thread", site)
            if area:
                try: obj = cc.tls_object(SRC, area)
                except cc.CompileError: obj = None
                alloc = obj[0] if obj else None
                if obj:
                    sz, al, ini = obj
                    v.put(ini[4:8] == b"\xff" * 4, ("C08", "C09"), "area-init", "a thread that never registered has cpu_id -1", "before registration the area's cpu_id is %s: critical sections of an unregistered thread do not fail" % ini[4:8].hex(), "src/rseq.c " + area)
                    v.put(ini[8:16] == bytes(8) and ini[:4] == bytes(4) and ini[16:20] == bytes(4), ("C08", "C09"), "area-init-rest", "no section armed, possible CPU 0", "before registration the area holds %s" % ini[:20].hex(), "src/rseq.c " + area)
                    v.put(al >= 32, ("C08", "C09"), "area-align", "the area is aligned as the kernel requires", "the area is aligned on %d bytes: the kernel refuses it" % al, "src/rseq.c " + area)
                X.area, X.alloc = area, alloc
                over = c.AND(sy[0].cond, X.ult(g.k(alloc, 32), a[2])) if alloc else None
                v.put(None if over is None else over is c.F or X.d.feasible(over) is None, ("C09", "C11"), "reg-extent", "the length given fits the area", "the length given can exceed the %s bytes allocated" % alloc, site)
            v.put(X.same(a[3], g.k(flag, 32), q.cond), P9, "reg-flags", "right operation", "flags are %s instead of %d" % (c.s(a[3])[:40], flag), site)
            v.put(X.same(a[4], g.k(SIG, 32), q.cond), ("C09", "C04"), "reg-sig", "the signature of the critical sections", "signature given is %s" % c.s(a[4])[:40], site)
            want = X.kernel_size(); w = X.trunc(want, 32)
            w = c.ite(X.ult(w, g.k(ORIGA, 32)), g.k(ORIGA, 32), w)
            v.put(X.same(a[2], w, q.cond), ("C09", "C11"), "reg-len", "length covers the kernel's feature size, at least 32", "length is %s" % c.s(a[2])[:100], site)
            ln = a[2]
            rc = X.trunc(q.env[sy[0].res], 32) if sy[0].res in q.env else None
            ok = X.eq(rc, 0) if rc is not None else None
        if q.end.op == "unreachable":
            if not sy: continue
            ab = [e for e in q.effs if e.op == "call" and e.name in ("abort", "exit", "_exit", "__assert_fail")]
            if ab and ab[-1].name == "abort":
                v.put(X.imp(q.cond, c.NOT(ok)), P9, "reg-abort", "ends the process only on failure", "ends the process although the kernel accepted", site)
                sz = [e for e in q.effs if e.op == "load" and X.gname(e.args[0]) == "rseq_size" and idx(q, e) > idx(q, sy[0])]
                if sz: v.put(X.imp(q.cond, c.NOT(X.eq(q.env[sz[-1].res], 0))), P9, "reg-abort-first", "only after another thread succeeded", "ends the process although no thread had succeeded", site)
                else: v.put(False, P9, "reg-abort-first", "", "ends the process on a first refusal", site)
            continue
        rv = X.ret(q); zero = X.eq(rv, 0)
        good = lib if not sy else c.OR(lib, ok) if ok is not None else lib
        v.put(X.imp(c.AND(q.cond, zero), good, q.cond), P9, "reg-success", "success only when owned by the C library or accepted", "reports success although the kernel refused or was not asked", site)
        v.put(X.imp(c.AND(q.cond, good), zero, q.cond), P9, "reg-truth", "accepted is reported as success", "reports failure although the registration is in place", site)
        v.put(X.imp(c.AND(q.cond, c.NOT(zero)), X.eq(rv, -1), q.cond), P9, "reg-minus1", "refusal is -1", "refusal is reported as %s" % c.s(rv)[:60], site)
        st = [e for e in q.effs if e.op == "store" and X.gname(e.args[1]) == "rseq_size" and (not sy or idx(q, e) > idx(q, sy[0]))]
        if flag == 0 and sy:
            fail = c.AND(q.cond, c.NOT(ok))
            if fail is not c.F and X.d.feasible(fail) is not None:
                # a refusal returned to the caller: nobody had succeeded before
                szl = [e for e in q.effs if e.op == "load" and X.gname(e.args[0]) == "rseq_size" and idx(q, e) > idx(q, sy[0])]
                if szl: v.put(X.imp(fail, X.eq(q.env[szl[0].res], 0)), P9, "reg-incoherent", "a refusal after a success ends the process", "returns an error although another thread had succeeded", site)
                else: v.put(False, P9, "reg-incoherent", "", "a refusal after another thread's success is only returned", site)
                if st: v.put(X.imp(st[0].cond, ok), ("C11", "C09"), "size-success", "", "publishes a feature size although the kernel refused", g.site(st[0].inst))
            succ = c.AND(q.cond, ok)
            if succ is not c.F and X.d.feasible(succ) is not None:
                szl = [e for e in q.effs if e.op == "load" and X.gname(e.args[0]) == "rseq_size" and idx(q, e) > idx(q, sy[0])]
                if st:
                    val = st[-1].args[0]
                    v.put(X.same(val, X.trunc(X.kernel_size(), 32), q.cond), ("C11",), "size-value", "publishes the kernel's feature size", "publishes %s" % c.s(val)[:100], g.site(st[-1].inst))
                    over = c.AND(q.cond, X.ult(sy[0].args[2], val))
                    v.put(over is c.F or X.d.feasible(over) is None, ("C11",), "size-bound", "published size within the registered area", "publishes a feature size beyond the registered area", g.site(st[-1].inst))
                    if szl: v.put(X.imp(q.cond, X.eq(q.env[szl[-1].res], 0)), ("C11",), "size-first", "only the first thread publishes", "changes a feature size already published", g.site(st[-1].inst))
                else:
                    if szl: v.put(X.imp(succ, c.NOT(X.eq(q.env[szl[-1].res], 0))), ("C11",), "size-publish", "the first success publishes the size", "a first successful registration publishes no feature size", site)
                    else: v.put(False, ("C11",), "size-publish", "", "a first successful registration publishes no feature size", site)
        elif st and flag: v.put(False, ("C11",), "size-unreg", "", "unregistering one thread changes the feature size of the process", g.site(st[0].inst))
    if not seen: v.put(False, P9, "reg-syscall", "", "never calls the kernel", fn)
    return ln

def idx(q, e):
    for k, x in enumerate(q.effs):
        if x is e: return k
    return -1

def initonce(rep, m, fn, X, own, done, ig):
    rep.analysed(fn)
    v = V(rep, fn); c = X.c; g = X.g; P10 = ("C10",)
    state = {own, "rseq_offset", "rseq_size", "rseq_flags"}
    for q in X.paths:
        if q.end.op == "unreachable" and not any(e.op == "call" and e.name in ("pthread_mutex_lock", "pthread_mutex_unlock") for e in q.effs): continue
        ev = q.effs
        # only the initialisation part: up to the registration call
        cutk = next((k for k, e in enumerate(ev) if e.op == "call" and e.name == "syscall"), len(ev))
        ev = ev[:cutk]
        lk = [k for k, e in enumerate(ev) if e.op == "call" and e.name == "pthread_mutex_lock"]
        ul = [k for k, e in enumerate(ev) if e.op == "call" and e.name == "pthread_mutex_unlock"]
        ld = [(k, e) for k, e in enumerate(ev) if e.op == "load" and X.gname(e.args[0]) == done]
        sd = [k for k, e in enumerate(ev) if e.op == "store" and X.gname(e.args[1]) == done]
        ss = [k for k, e in enumerate(ev) if e.op == "store" and X.gname(e.args[1]) in state]
        site = g.site(ev[0].inst) if ev else fn
        if q.end.op == "unreachable":
            # an assertion: only relevant for the lock state of the others
            continue
        if not lk:
            if ss or sd: v.put(False, P10, "init-lock", "", "initialises without the lock", g.site(ev[(ss + sd)[0]].inst)); continue
            if ul: v.put(False, P10, "init-unlock", "", "releases a lock it does not hold", g.site(ev[ul[0]].inst)); continue
            if not ld: v.put(False, P10, "init-fast", "", "goes on without initialisation", site); continue
            k, e = ld[0]
            v.put(X.imp(q.cond, c.NOT(X.eq(q.env[e.res], 0))), P10, "init-fast", "skips initialisation only when done", "goes on before initialisation is done", g.site(e.inst))
            use = [x for x in range(k + 1, len(ev)) if ev[x].op == "load" and X.gname(ev[x].args[0]) in state]
            last = use[0] if use else len(ev)
            ok = strong(e.inst) and any(isbar(ev[x]) for x in range(k + 1, last)) or "acquire" in str(e.inst.attrs.get("flags")) or "seq_cst" in str(e.inst.attrs.get("flags"))
            v.put(bool(ok), P10, "init-acquire", "the flag is read with acquire ordering", "the flag is read without acquire ordering: the state it guards may be stale", g.site(e.inst))
            continue
        if len(lk) != 1 or len(ul) != 1 or ul[0] < lk[0]:
            v.put(False if len(lk) == 1 else None, P10, "init-unlock", "", "returns with the lock held" if not ul else "lock and unlock do not match", g.site(ev[lk[0]].inst)); continue
        v.put(X.gname(ev[lk[0]].args[0]) is not None and ev[lk[0]].args[0] is ev[ul[0]].args[0], P10, "init-unlock", "the lock is released on every path", "releases another lock", g.site(ev[ul[0]].inst))
        inl = [(k, e) for k, e in ld if lk[0] < k < ul[0]]
        if not inl: v.put(False, P10, "init-recheck", "", "does not look at the flag again under the lock: initialises twice", g.site(ev[lk[0]].inst)); continue
        k1, e1 = inl[0]; isdone = c.NOT(X.eq(q.env[e1.res], 0))
        if ss or sd:
            v.put(X.imp(q.cond, c.NOT(isdone)), P10, "init-recheck", "initialises only if nobody did", "initialises again although it was done", g.site(e1.inst))
            allin = all(k1 < k < ul[0] for k in ss + sd)
            v.put(allin, P10, "init-locked", "all state is set under the lock after the second look", "sets state outside the locked region", g.site(ev[(ss + sd)[0]].inst))
            if not sd: v.put(False, P10, "init-done", "", "does not record that initialisation is done", g.site(ev[ss[-1]].inst)); continue
            v.put(X.same(c.NOT(X.eq(ev[sd[-1]].args[0], 0)), c.T, q.cond), P10, "init-done", "records that initialisation is done", "records that initialisation is not done", g.site(ev[sd[-1]].inst))
            v.put(not ss or max(ss) < min(sd), P10, "init-publish", "the flag is set after all state", "the flag is set before %s" % (X.gname(ev[max(ss)].args[1]) if ss else ""), g.site(ev[sd[0]].inst))
            i = ev[sd[0]].inst
            before = [x for x in ss if x < sd[0]]
            ok = strong(i) and any(isbar(ev[x]) for x in range((before[-1] if before else 0) + 1, sd[0])) or "release" in str(i.attrs.get("flags")) or "seq_cst" in str(i.attrs.get("flags"))
            v.put(bool(ok), P10, "init-release", "the flag is set with release ordering", "the flag is set without release ordering: others may see it before the state", g.site(i))
            decision(v, m, X, q, ev, own)
        else:
            v.put(X.imp(q.cond, isdone), P10, "init-recheck", "", "leaves without initialising although nobody did", g.site(e1.inst))

def decision(v, m, X, q, ev, own):
    c, g = X.c, X.g; P = ("C09", "C10"); site = g.site(ev[-1].inst)
    sym = {}
    for e in ev:
        if e.op == "call" and e.name == "dlsym":
            n = X.gname(e.args[1]); sym[gstr(m, n) if n else None] = q.env[e.res]
    need = ("__rseq_offset", "__rseq_size", "__rseq_flags")
    if not all(n in sym for n in need):
        mine = any(e.op == "store" and X.gname(e.args[1]) == own for e in ev)
        gone = [n for n in need if n not in sym and n not in m.globals and not any(gstr(m, x) == n for x in m.globals)]
        v.put(False if mine and gone else None, P, "init-symbols", "", "the C library's symbols are not all looked up (%s)" % sorted(str(x) for x in sym), site); return
    po, ps, pf = (sym[n] for n in need)
    lib = c.AND(*[c.NOT(X.eq(p, 0)) for p in (po, ps, pf)])
    szl = [q.env[e.res] for e in ev if e.op == "load" and e.args[0] is ps]
    if szl: lib2 = c.AND(lib, c.NOT(X.eq(szl[0], 0)))
    st = {X.gname(e.args[1]): e for e in ev if e.op == "store" and X.gname(e.args[1])}
    mine = own in st and not X.same(X.eq(st[own].args[0], 0), c.T, q.cond)
    C = q.cond
    for w in szl[1:]: C = c.AND(C, c.ite(X.eq(w, 0), X.eq(szl[0], 0), c.NOT(X.eq(szl[0], 0))))
    if mine:
        if szl: v.put(X.imp(C, c.NOT(lib2)), P, "init-owner", "takes ownership only when the C library has none", "takes ownership although the C library registered", site)
        else: v.put(X.imp(C, c.NOT(lib)), P, "init-owner", "takes ownership only when the C library has none", "takes ownership without looking at the C library's size", site)
    else:
        if not szl: v.put(False, P, "init-owner", "", "leaves ownership to the C library without looking at its size", site); return
        v.put(X.imp(C, lib2), P, "init-owner", "leaves ownership to the C library only when it registered", "leaves the registration to a C library that did not register", site)
    def val(n, want, text, props):
        e = st.get(n)
        if e is None: v.put(False, props, "init-" + n, "", "%s is not set" % n, site)
        else: v.put(X.same(e.args[0], want, C), props, "init-" + n, text, "%s is set to %s" % (n, c.s(e.args[0])[:100]), g.site(e.inst))
    if not mine:
        for n, p, w in (("rseq_offset", po, 64), ("rseq_flags", pf, 32)):
            l = [q.env[e.res] for e in ev if e.op == "load" and e.args[0] is p]
            if not l: v.put(False, ("C10",), "init-" + n, "", "%s is not taken over from the C library" % n, site)
            else: val(n, l[-1], "taken over from the C library", ("C10", "C08"))
        s = szl[-1]; k32 = X.trunc(X.kernel_size(), 32)
        cap = c.ite(X.ult(k32, g.k(ORIGA, 32)), k32, g.k(ORIGA, 32))
        val("rseq_size", c.ite(c.OR(X.eq(s, ORIGF), X.eq(s, ORIGA)), cap, s), "C library's size, historic values capped", ("C11",))
    else:
        val("rseq_size", g.k(0, 32), "0 until a thread registers", ("C11",))
        val("rseq_flags", g.k(0, 32), "0", ("C10",))
        e = st.get("rseq_offset")
        if e is None: v.put(False, ("C10", "C08"), "init-rseq_offset", "", "rseq_offset is not set", site)
        else:
            # address of the thread's area minus the thread pointer
            tp = [x for x in ev if x.op == "call" and x.name == "asm" and "fs:0" in x.inst.extra[1] and x.res is not None]
            area = getattr(X, "area", None) or next((n for n, t in m.globals.items() if "thread_local" in t), None)
            ok = None
            if area:
                for x in tp:
                    if e.args[0] is g.sub(c.leaf(c.var(64, ("global", area))), q.env[x.res]): ok = True
                if ok is None:
                    known = all(c.alist[a][0] in ("global", "call", "fcall") or c.alist[a][0] == "load" and X.gname(c.leaf(c.alist[a][1])) for a in c.deep_atoms(e.args[0]))
                    ok = False if known else None
            v.put(ok, ("C10", "C08"), "init-rseq_offset", "distance from the thread pointer to the thread's area", "rseq_offset is set to %s" % c.s(e.args[0])[:100], g.site(e.inst))

def writers(rep, m, own, done, reg, ct, ig):
    """nothing else changes ownership, flag, offset or flags, except at unload"""
    dt = set(re.findall(r"@([\w.]+)", m.globals.get("llvm.global_dtors", "")))
    for fn, f in m.funcs.items():
        if fn == reg or fn in ct or fn in dt or f.linkage == "internal": continue
        for b in f.blocks:
            for i in b.insts:
                if i.op == "store" and i.args[1].kind == "global" and i.args[1].name in (own, done, "rseq_offset", "rseq_flags", "rseq_size"):
                    rep.bad(("C10",), "init-writers", fn, "%s changes %s after initialisation" % (fn, i.args[1].name), fn)
    for fn in dt:
        if fn not in m.funcs: continue
        try: X = F(m, fn, ig)
        except Cyclic as e: rep.und(("C10",), "unload", fn, str(e)); continue
        rep.analysed(fn); v = V(rep, fn)
        for q in X.paths:
            st = [e for e in q.effs if e.op == "store" and X.gname(e.args[1]) in (own, "rseq_offset", "rseq_flags", "rseq_size")]
            ol = [q.env[e.res] for e in q.effs if e.op == "load" and X.gname(e.args[0]) == own]
            for e in st:
                v.put(X.imp(e.cond, c2(X, ol)), ("C10", "C12"), "unload", "unloading only clears what this library set up", "unloading clears %s although the C library owns the registration" % X.gname(e.args[1]), X.g.site(e.inst))
                if X.gname(e.args[1]) == "rseq_size":
                    z = X.imp(e.cond, X.eq(e.args[0], 0))
                    nz = X.imp(e.cond, X.c.NOT(X.eq(e.args[0], 0)))
                    v.put(True if z else (False if nz else None), ("C11", "C12"), "unload-size", "the feature size is 0 after unloading", "unloading leaves a feature size above 0: the C library query answers true afterwards", X.g.site(e.inst))
        for b in m.funcs[fn].blocks:
            for i in b.insts:
                if i.op == "store" and i.args[1].kind == "global" and i.args[1].name == done: rep.bad(("C10",), "init-writers", fn, "initialisation can happen again", fn)
    rep.ok(("C10",), "init-writers", SRC, "ownership, flag, offset and flags only change in the initialisation")

def c2(X, ol): return X.c.NOT(X.eq(ol[0], 0)) if ol else X.c.F

def available(rep, m, own, ig):
    fn = "rseq_available"; v = V(rep, fn); P = ("C12",)
    try: X = F(m, fn, ig)
    except Cyclic as e: rep.und(P, "available", fn, str(e)); return
    c, g = X.c, X.g
    from rules_set import vg_arg
    a = g.val(vg_arg(g, 0))
    for q in X.paths:
        sy = [e for e in q.effs if e.op == "call" and e.name == "syscall"]
        site = g.site(q.end); C = q.cond
        if sy:
            s = sy[0]; site = g.site(s.inst)
            v.put(X.same(s.args[0], g.k(NR_RSEQ), c.T) and X.same(s.args[1], g.k(0), c.T) and X.same(s.args[3], g.k(0, 32), c.T), P, "avail-probe", "probes with an invalid request", "probes with a request that could register: %s" % [c.s(x)[:20] for x in s.args], site)
            v.put(X.imp(C, X.eq(a, 0)), P, "avail-query", "asks the kernel only for the kernel query", "asks the kernel for another query", site)
            rc = X.trunc(q.env[s.res], 32)
            en = [q.env[e.res] for e in q.effs if e.op == "load" and errno_addr(X, e.args[0])]
        refused = c.F; nosys = c.F
        if sy:
            m1 = X.eq(rc, -1)
            refused = c.AND(m1, X.eq(en[0], EINVAL)) if en else c.F
            nosys = c.AND(m1, X.eq(en[0], ENOSYS)) if en else c.F
        szl = [q.env[e.res] for e in q.effs if e.op == "load" and X.gname(e.args[0]) == "rseq_size"]; ol = [q.env[e.res] for e in q.effs if e.op == "load" and X.gname(e.args[0]) == own]
        act = c.T
        act = c.AND(c.NOT(X.eq(szl[-1], 0)) if szl else c.F, X.eq(ol[-1], 0) if ol else c.F)
        libno = c.OR(X.eq(szl[-1], 0) if szl else c.F, c.NOT(X.eq(ol[-1], 0)) if ol else c.F)
        if q.end.op == "unreachable":
            if sy: v.put(X.imp(C, c.NOT(c.OR(refused, nosys) if en else m1)), P, "avail-loud", "ends the process only for an unexpected answer", "ends the process for an expected answer", site)
            else: v.put(False, P, "avail-loud", "", "ends the process for a query that cannot fail", site)
            continue
        rv = X.ret(q)
        if rv.b is None and rv.leaf not in (True, False): yes = c.NOT(X.eq(rv, 0))
        else: yes = rv
        k = X.eq(a, 0); l = X.eq(a, 1)
        v.put(X.imp(c.AND(C, yes), c.OR(c.AND(k, refused), c.AND(l, act))), P, "avail-true", "true only with the kernel's or the C library's support", "answers true without support, or to an unknown query", site)
        no = c.AND(C, c.NOT(yes))
        v.put(X.imp(no, c.OR(c.AND(k, nosys), c.AND(l, libno), c.AND(c.NOT(k), c.NOT(l)))), P, "avail-false", "false only without support", "answers false although supported, or hides an unexpected answer", site)

def errno_addr(X, a):
    if a.b is None:
        x = X.c.single(a.leaf)
        return x is not None and X.c.alist[x][:2] == ("fcall", "__errno_location")
    return False

def fallback(rep, m, ig):
    P = ("C12",)
    fn = "rseq_fallback_current_cpu"; v = V(rep, fn)
    try:
        X = F(m, fn, ig); c, g = X.c, X.g
        for q in X.paths:
            cl = [e for e in q.effs if e.op == "call" and e.name == "sched_getcpu"]
            site = g.site(q.end)
            if len(cl) != 1: v.put(None if any(e.op == "call" for e in q.effs) else False, P, "fallback-cpu", "", "the CPU is not asked for", site); continue
            r = q.env[cl[0].res]; neg = g.icmp("slt", r, g.k(0, 32))
            if q.end.op == "ret":
                v.put(X.imp(q.cond, c.NOT(neg)), P, "fallback-cpu-valid", "only valid CPU numbers are returned", "returns a negative CPU number", site)
                v.put(X.same(X.ret(q), r, q.cond), P, "fallback-cpu-value", "the kernel's answer", "returns %s" % c.s(X.ret(q))[:60], site)
            else: v.put(X.imp(q.cond, neg), P, "fallback-cpu-loud", "ends the process only on failure", "ends the process although the CPU is known", site)
    except Cyclic as e: rep.und(P, "fallback-cpu", fn, str(e))
    fn = "rseq_fallback_current_node"; v = V(rep, fn)
    try:
        X = F(m, fn, ig); c, g = X.c, X.g
        for q in X.paths:
            if q.end.op != "ret": continue
            site = g.site(q.end)
            cl = [e for e in q.effs if e.op == "call" and e.name in ("syscall", "getcpu")]
            if len(cl) != 1: v.put(None if any(e.op == "call" for e in q.effs) else False, P, "fallback-node", "", "the node is not asked for", site); continue
            e = cl[0]; sy = e.name == "syscall"
            if sy: v.put(X.same(e.args[0], g.k(NR_GETCPU), c.T), P, "fallback-node-call", "getcpu", "makes system call %s" % c.s(e.args[0])[:20], site)
            np = e.args[2 if sy else 1]; rc = X.trunc(q.env[e.res], 32) if g.width(e.inst.ty) != 32 else q.env[e.res]; ok = X.eq(rc, 0); rv = X.ret(q)
            C = c.AND(q.cond, ok)
            if C is not c.F and X.d.feasible(C) is not None:
                l = [q.env[x.res] for x in q.effs if x.op == "load" and x.args[0] is np and idx(q, x) > idx(q, e)]
                v.put(any(X.same(rv, y, C) for y in l), P, "fallback-node-value", "the kernel's answer", "returns %s instead of the node" % c.s(rv)[:60], site)
            C = c.AND(q.cond, c.NOT(ok))
            if C is not c.F and X.d.feasible(C) is not None:
                v.put(X.same(rv, rc, c.AND(C, X.eq(rc, -1))), P, "fallback-node-error", "the error is returned", "returns %s when the kernel fails" % c.s(rv)[:60], site)
    except Cyclic as e: rep.und(P, "fallback-node", fn, str(e))

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(100000)
    from report import Report
    r = Report(); run(r)
    for k, v in sorted(r.obl.items()):
        if v[1] != "holds" or "-v" in sys.argv: print(v[1], k, v[2][:300])
    print(len(r.obl))
