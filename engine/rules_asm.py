"""Critical sections of every architecture: C01 C02 C03 C04 C05 C06 C07."""
import os, re
import asmx, cc
from asmx import T, K, A, add, sub, mulc, isc, single, eqlit, sg, Unknown, Insn, Data
from ir import Module
from report import parallel

SRC = os.path.join(asmx.DRV, "drv.c")
OPS = ("load_cbne_store", "load_cbeq_store_add_load_store", "load_add_store", "load_add_load_load_add_store", "load_cbne_store_store",
    "load_cbne_load_cbne_store", "load_cbne_memcpy_store")
RELEASE = ("load_cbne_store_store", "load_cbne_memcpy_store")
FIELD = {0: ("cpu_id", 4), 1: ("mm_cid", 24)}
WHERE = {"x86": "x86", "arm": "arm", "aarch64": "aarch64", "ppc": "ppc", "mips": "mips", "s390": "s390", "riscv": "riscv", "loongarch": "loongarch"}

def strip(t):
    """the same term with every caller load taken as one snapshot"""
    r = K(t.w, t.c)
    for a, k in t.m: r = add(r, mulc(A(t.w, strip_atom(a)), k))
    return r
def strip_atom(a):
    if a[0] == "load": return ("load", a[1], strip(a[2]), 0 if isinstance(a[3], int) else a[3])
    return tuple(strip(x) if isinstance(x, T) else x for x in a)
def strip_lit(l):
    if l[0] == "eq":
        d = strip(l[1]); e = mulc(d, -1)
        return ("eq", d if repr(d) <= repr(e) else e)
    return l
def lit(a, b):
    l = eqlit(a, b)
    return l if isinstance(l, bool) else strip_lit(l)

class Spec:
    """conditions (term, term, polarity that continues), tentative effects, commit store"""
    def __init__(self, op, W):
        P = lambda n: A(W, ("arg", n)); ld = lambda a: A(W, ("load", W, a, 0))
        v = P("v"); self.conds = []; self.tent = []; self.copy = None
        if op == "load_cbne_store": self.conds = [(ld(v), P("expect"), True)]; self.commit = (v, P("newv"))
        elif op == "load_cbeq_store_add_load_store":
            self.conds = [(ld(v), P("expectnot"), False)]; self.tent = [(P("load"), ld(v))]
            self.commit = (v, ld(add(ld(v), P("voffp"))))
        elif op == "load_add_store": self.commit = (v, add(ld(v), P("count")))
        elif op == "load_add_load_load_add_store":
            a = ld(add(ld(P("ptr")), P("off"))); self.commit = (a, add(ld(a), P("inc")))
        elif op == "load_cbne_store_store":
            self.conds = [(ld(v), P("expect"), True)]; self.tent = [(P("v2"), P("newv2"))]; self.commit = (v, P("newv"))
        elif op == "load_cbne_load_cbne_store":
            self.conds = [(ld(v), P("expect"), True), (ld(P("v2")), P("expect2"), True)]; self.commit = (v, P("newv"))
        elif op == "load_cbne_memcpy_store":
            self.conds = [(ld(v), P("expect"), True)]; self.copy = (P("dst"), P("src"), P("len")); self.commit = (v, P("newv"))

def flat(prog, loc, n):
    """n bytes of data from a location: [(offset, size, term)] or None"""
    out = []; off = 0; sec, i = loc
    while off < n:
        it = prog.sec[sec][i] if i < len(prog.sec[sec]) else None
        if not isinstance(it, Data): return None
        for sz, x, o in it.vals: out.append((off, sz, prog.expr(x, o, 64), x)); off += sz
        i += 1
    return out if off == n or n <= off else None

def word64(cells, off, big):
    """64-bit field made of one 8-byte or two 4-byte cells"""
    c = [x for x in cells if off <= x[0] < off + 8]
    if len(c) == 1 and c[0][1] == 8: return c[0][2]
    if len(c) == 2 and c[0][1] == c[1][1] == 4:
        hi, lo = (c[0], c[1]) if big else (c[1], c[0])
        if isc(hi[2]) == 0: return lo[2]
        return ("pair", hi[2], lo[2])
    raise Unknown("descriptor layout")

def sym(t):
    a = single(t) if isinstance(t, T) else None
    return a[1:] if a is not None and a[0] == "sym" else None

class Desc:
    def __init__(self, prog, loc, big):
        c = flat(prog, loc, 32)
        if c is None: raise Unknown("descriptor")
        w32 = lambda off: next((x[2] for x in c if x[0] == off and x[1] == 4), None)
        a, b = w32(0), w32(4)
        if a is None or b is None: raise Unknown("descriptor head")
        self.version, self.flags = isc(a), isc(b)
        self.start, self.off, self.abort = word64(c, 8, big), word64(c, 16, big), word64(c, 24, big)
        self.key = (self.version, self.flags, self.start, self.off, self.abort)

def canon_clobber(arch, c):
    f = arch.fam
    if f == "x86":
        r = asmx.X86.get(c); return r[0] if r else c
    if f == "riscv": return asmx.RV.get(c, c)
    if f == "aarch64": return "x" + c[1:] if re.match(r"^w\d+$", c) else c
    if f == "arm": return {"ip": "r12", "lr": "r14", "fp": "r11"}.get(c, c)
    if f == "mips": return c if c.startswith("$") else "$" + c if c.isdigit() else c
    if f == "loongarch":
        c = c.lstrip("$")
        if re.match(r"^t\d$", c): return "r%d" % (12 + int(c[1:]))
        if re.match(r"^a\d$", c): return "r%d" % (4 + int(c[1:]))
        return c if c.startswith("r") else "r" + c if c.isdigit() else c
    return c

class Sec:
    """one instantiated operation"""
    def __init__(self, rep, mod, arch, fname, variant, sig):
        self.rep, self.mod, self.arch, self.fname, self.variant, self.sig = rep, mod, arch, fname, variant, sig
        op, mo, mode = fname[4:].rsplit("__", 2)
        self.op, self.mo, self.mode = op, int(mo), int(mode)
        self.where = "%s %s mo=%d mode=%d%s" % (arch.name, op, self.mo, self.mode, " " + variant if variant else "")
        self.site = "include/rseq/arch/%s/bits.h: rseq_%s__ptr" % (WHERE[arch.fam], op)
    def ok(self, props, rule, d=""): self.rep.ok(props, "asm." + rule, self.where, d)
    def bad(self, props, rule, d): self.rep.bad(props, "asm." + rule, self.where, d, site=self.site + " (" + self.where + ")")
    def und(self, props, rule, d): self.rep.und(props, "asm." + rule, self.where, d)
    def cond(self, c, props, rule, d, okd=""):
        if c: self.ok(props, rule, okd)
        else: self.bad(props, rule, d)
        return c
    def provided(self):
        return self.mode in (0, 1) and (self.mo == 0 or (self.mo == 3 and self.op in RELEASE))
    def run(self):
        rep = self.rep; rep.analysed(self.where)
        W = self.arch.w
        s = asmx.Site(self.mod, self.arch, self.fname)
        eff = [x for x in s.pre if x[0] in ("store", "call", "asm")]
        if not self.provided():
            if s.asm is not None:
                self.und(("C07",), "unprovided", "combination outside the documented ones carries a section"); return
            r = s.ret
            good = isinstance(r, T) and isc(r) is not None and sg(isc(r), r.w) == -1
            self.cond(good and not eff and not s.pre, ("C07",), "unprovided", "a combination that is not provided must return -1 without touching memory; it returns %r after %r" % (r, s.pre), "returns -1, no effect")
            return
        if s.asm is None:
            self.bad(("C07", "C03"), "provided", "no critical section runs for a provided combination (returns %r)" % (s.ret,)); return
        self.ok(("C07",), "provided")
        for e in eff:
            if e[0] == "store": self.bad(("C01", "C03"), "outside", "caller memory %r is written before the section, where nothing restarts it" % (e[1],))
            else: self.und(("C01", "C03"), "outside", "call before the section: %r" % (e,))
        for e in s.pre:
            if e[0] == "load": self.und(("C01", "C02"), "preload", "memory read before the section: %r" % (e[1],))
        ops, clob, labels = s.operands()
        clobs = {canon_clobber(self.arch, c) for c in clob}
        p = asmx.Prog(s.asm.extra[1], self.arch)
        m = asmx.Machine(self.arch, p, ops, clob)
        points = []; seen = set()
        def hook(loc, st):
            k = (loc, tuple(sorted(st.regs.items(), key=repr)), tuple(sorted(st.ops.items(), key=repr)), tuple(sorted(st.mem.items(), key=repr)), len(st.stack), st.flagw, st.armed is not None)
            if k in seen: return
            seen.add(k); points.append((loc, st.clone()))
        m.hook = hook
        ends = m.explore(("", 0), m.initial(s.mem))
        m.hook = None
        self.s, self.ops, self.labels, self.clobs, self.p, self.m, self.points, self.ends = s, ops, labels, clobs, p, m, points, ends
        self.outcomes()
        if not self.descriptor(): return
        self.paths(); self.aborts(); self.state(); self.order()
    # ---- how each path ends
    def outcomes(self):
        s = self.s; self.outs = []
        for kind, w, st in self.ends:
            if kind in ("fall", "label"):
                t = s.asm.attrs["targets"][0] if kind == "fall" else self.labels.get(w)
                if t is None: raise Unknown("label operand %r" % (w,))
                r, eff = s.after(t)
                ret = sg(isc(r[1]), r[1].w) if r[0] == "ret" and isinstance(r[1], T) and isc(r[1]) is not None else None
                if r[0] == "ret" and ret is None: raise Unknown("return value %r" % (r[1],))
                self.outs.append((kind, w, st, "die" if r[0] == "die" else ret, eff))
            else: self.outs.append((kind, w, st, kind, []))
    # ---- C04
    def descriptor(self):
        p, arch = self.p, self.arch
        arms = set(); 
        for *_, st, ret, eff in self.outs:
            ar = [e for e in st.ev if e[0] == "arm"]
            live = [e for e in ar if isc(e[1]) != 0]
            if len(live) != 1:
                self.bad(("C04", "C01", "C02"), "armed", "a path arms the section %d times: its descriptor must be stored to the thread's rseq_cs field exactly once" % len(live)); return False
            arms.add((live[0][1], live[0][2].loc))
            for e in st.ev:
                if e[0] == "areastore": self.bad(("C04", "C08", "C09"), "area", "writes the rseq area at offset %d (%d bits): not the critical-section pointer" % (e[1], e[2]))
        if len(arms) != 1: self.und(("C04",), "armed", "several arming stores"); return False
        val, armloc = arms.pop()
        loc = sym(val)
        if loc is None: self.bad(("C04", "C01", "C02"), "armed", "the value stored to rseq_cs is %r, not a descriptor of this section" % (val,)); return False
        if not isinstance(p.insn(loc), Data):
            self.bad(("C04", "C01", "C02"), "armed", "the address stored to rseq_cs (%r) holds code, not a descriptor" % (val,)); return False
        d = Desc(p, loc, arch.big); self.d = d
        self.ok(("C04",), "armed", "descriptor at %s+%d" % loc)
        self.cond(d.version == 0 and d.flags == 0, ("C04",), "head", "descriptor version %r flags %r (must be 0, 0)" % (d.version, d.flags))
        al = p.aligns.get(loc, 1)
        self.cond(al >= 32, ("C04",), "align", "the descriptor is aligned to %d, less than 32" % al)
        start, abort = sym(d.start), sym(d.abort)
        if start is None or abort is None or not isinstance(d.off, T):
            self.bad(("C04", "C01", "C02"), "range", "descriptor fields are not addresses of this section: start %r length %r abort %r" % (d.start, d.off, d.abort)); return False
        post = None
        end = add(d.off, d.start)
        post = sym(end)
        if post is None:
            self.bad(("C04", "C01", "C02"), "range", "descriptor length %r is not the distance from its start to a label" % (d.off,)); return False
        if start[0] != post[0] or not start[1] < post[1]:
            self.bad(("C04", "C01", "C02"), "range", "descriptor range is empty or reversed"); return False
        self.start, self.post, self.abort, self.armloc = start, post, abort, armloc
        self.ok(("C04",), "range", "[%d,%d)" % (start[1], post[1]))
        self.inr = lambda l: l[0] == start[0] and start[1] <= l[1] < post[1]
        # arming store precedes the start, with nothing that matters between
        if not (armloc[0] == start[0] and armloc[1] < start[1]):
            self.bad(("C04",), "start", "the section starts before its arming store")
        else:
            self.cond(armloc[1] + 1 == start[1], ("C04", "C02"), "start", "instructions between the arming store and the start of the section: %s" % "; ".join(p.insn((start[0], i)).text for i in range(armloc[1] + 1, start[1])))
        # signature
        ok = None
        bs = []
        sec, i = abort; j = i - 1
        need = 4
        while need > 0 and j >= 0 and isinstance(p.sec[sec][j], Data):
            for sz, x, o in reversed(p.sec[sec][j].vals):
                if need <= 0: break
                bs.insert(0, (sz, p.expr(x, o, 64), p.sec[sec][j].kind == ".inst")); need -= sz
            j -= 1
        val = None
        if need == 0 and all(isc(t) is not None for _, t, _ in bs):
            raw = b"".join((isc(t) & ((1 << 8 * sz) - 1)).to_bytes(sz, "big" if arch.big and not code else "little") for sz, t, code in bs)
            val = int.from_bytes(raw, "big" if arch.big else "little")
        gap = p.aligns.get(abort, 1)
        self.cond(val == self.sig and gap <= (1 if arch.fam == "x86" else 4), ("C04",), "signature", "the word before the abort address is %s, the registered signature is %#x" % (hex(val) if val is not None else "not data", self.sig))
        self.cond(not self.inr(abort), ("C04",), "abort-outside", "the abort address lies inside the section")
        # pointer array
        arr = p.sec.get("__rseq_cs_ptr_array")
        if not arr: self.bad(("C04",), "array", "no entry in __rseq_cs_ptr_array")
        else:
            good = False; cells = flat(p, ("__rseq_cs_ptr_array", 0), 8); l = None
            if cells and sum(len(x.vals) for x in arr) == len(cells):
                l = sym(word64(cells, 0, arch.big))
                if l is not None and isinstance(p.insn(l), Data):
                    d2 = Desc(p, l, arch.big); good = d2.key == d.key and p.aligns.get(l, 1) >= 32
            self.cond(good, ("C04",), "array", "the __rseq_cs_ptr_array entry does not point to a descriptor equal to the armed one")
        # declared exits
        ex = p.sec.get("__rseq_exit_point_array", []); decl = set(); n = sum(sz for it in ex for sz, _, _ in it.vals)
        cells = flat(p, ("__rseq_exit_point_array", 0), n) if n else []
        if n % 16: self.bad(("C04",), "exits", "exit point table of %d bytes" % n)
        else:
            for k in range(0, n, 16):
                a, b = word64(cells, k, arch.big), word64(cells, k + 8, arch.big)
                if sym(a) != start: self.bad(("C04",), "exits", "an exit point is declared for another section start (%r)" % (a,)); continue
                at = single(b) if isinstance(b, T) else None
                if at is None: self.bad(("C04",), "exits", "exit point %r is not an address" % (b,)); continue
                decl.add(("lbl", at[1]) if at[0] == "lbl" else at[1:])
        self.decl = decl
        return True
    # ---- C01 C02 C03
    def paths(self):
        W = self.arch.w; sp = Spec(self.op, W); fld, off = FIELD[self.mode]
        cur = A(32, ("load", 32, add(self.m.area, K(W, off)), "in")); cpul = lit(cur, A(32, ("arg", "cpu")))
        other = FIELD[1 - self.mode]; oth = lit(A(32, ("load", 32, add(self.m.area, K(W, other[1])), "in")), A(32, ("arg", "cpu")))
        bad_kinds = set(); succ = 0; miss = 0
        conds = [(lit(a, b), pol) for a, b, pol in sp.conds]
        for l in self.m.loops:
            if not (self.inr(l[0]) and self.inr((l[0][0], l[1]))): self.bad(("C01", "C03"), "loop", "the copy loop is not inside the section")
        offs = {(sg(sub(a[2], self.m.area).c, W), a[1]) for *_, st, ret, eff in self.outs for l in st.L if l[0] == "eq" for a in asmx.atoms(l[1]) if a[0] == "load" and not sub(a[2], self.m.area).m}
        if offs - {(4, 32), (24, 32)}: self.bad(("C08", "C02"), "offsets", "reads the rseq area at offset %d (%d bits): not the 32-bit %s field at offset %d" % (*sorted(offs - {(4, 32), (24, 32)})[0], fld, off))
        elif (off, 32) in offs: self.ok(("C08",), "offsets", "%s at offset %d, section pointer at offset %d" % (fld, off, self.m.csoff))
        for kind, w, st, ret, eff in self.outs:
            if kind in ("runoff", "data", "stop"):
                self.bad(("C04", "C06", "C03"), "control", "control runs into %s at %s" % ({"runoff": "the end of a section of code", "data": "data", "stop": "a trap"}[kind], w)); continue
            if ret == "die": self.bad(("C03",), "die", "a path ends the program"); continue
            L = {strip_lit(l): v for l, v in st.L.items()}
            what = "; ".join("%s%r" % ("" if v else "not ", l[1] if l[0] == "eq" else l) for l, v in L.items())
            if eff: self.bad(("C01", "C03"), "after", "effects after the section on a path returning %s: %r" % (ret, eff[0][:2]))
            writes = [e for e in st.ev if e[0] in ("store", "copy")]
            locs = [(e[4].loc, e) for e in writes] + [(e[3], e) for e in st.ev if e[0] == "load"]
            for l, e in locs:
                if not self.inr(l) or (e[0] in ("store", "copy") and not e[7 if e[0] == "store" else 6]):
                    self.bad(("C01", "C02", "C04"), "inside", "caller memory at %r is accessed outside the restartable range by '%s'" % (e[1], self.p.insn(l).text))
            for e in writes:
                if e[0] == "copy" and e[7]: self.bad(("C03",), "copy-zero", "the byte copy runs for length 0 and wraps around")
                Le = {strip_lit(l): v for l, v in (e[6] if e[0] == "store" else e[5]).items()}
                if Le.get(cpul) is not True:
                    self.bad(("C02",) + (("C07",) if Le.get(oth) is True else ()), "cpu-first", "'%s' writes caller memory on a path where the requested index was not found equal to the thread's %s" % (e[4].text, fld))
            if ret == -1:
                if L.get(cpul) is not False:
                    if L.get(oth) is not None: self.bad(("C02", "C07"), "field", "the index is compared with %s instead of %s" % (other[0], fld))
                    else: self.bad(("C03", "C02"), "spurious-abort", "the abort exit is taken although the index was not found different: [%s]" % what)
                elif writes: self.bad(("C01", "C02"), "abort-writes", "caller memory is written before the wrong-CPU exit")
                else: self.ok(("C02", "C01"), "wrong-cpu", "mismatch of %s takes the abort exit without any write" % fld)
                continue
            if L.get(cpul) is not True:
                self.bad(("C02",) + (("C07",) if L.get(oth) is True else ()), "cpu", "returns %s without the requested index having been found equal to the thread's %s inside the section: [%s]" % (ret, fld, what)); continue
            self.ok(("C02",), "cpu", "%s compared first" % fld)
            unread = [c for c, pol in conds if c not in L]
            if ret is not None and ret > 0:
                fail = [c for c, pol in conds if L.get(c) is (not pol)]
                if not fail:
                    self.bad(("C03",), "mismatch", "reports a failed comparison (returns %d) although [%s]" % (ret, what))
                else: self.ok(("C03",), "mismatch", "returns %d" % ret)
                if writes: self.bad(("C01", "C03"), "mismatch-writes", "writes caller memory on a path that reports a failed comparison")
                else: self.ok(("C01",), "mismatch-writes")
                miss += 1; continue
            if ret != 0: self.bad(("C03",), "return", "returns %s: only 0, a positive value and -1 are documented" % ret); continue
            succ += 1
            if any(L.get(c) is not pol for c, pol in conds):
                self.bad(("C03", "C01"), "success", "reports success although the comparison was not made or failed: [%s]" % what); continue
            # effects
            got = []; wrong = None
            for e in writes:
                if e[0] == "store": got.append((strip(e[1]), e[2], strip(e[3])))
                else: got.append(("copy", strip(e[1]), strip(e[2]), strip(e[3])))
            exp = [(strip(a), W, strip(v)) for a, v in sp.tent]
            if sp.copy:
                if L.get(lit(sp.copy[2], K(W, 0))) is not True: exp.append(("copy",) + sp.copy)
                else: got = [g for g in got if not (g[0] == "copy" and g[3] in (sp.copy[2], K(W, 0)))]
            com = (strip(sp.commit[0]), W, strip(sp.commit[1]))
            if not got or got[-1] != com:
                tgt = [g for g in got if g[0] == com[0]]
                self.bad(("C03", "C01"), "commit", "success path ends with %s, documented commit is %d bits at %r := %r" % ("store of %d bits at %r := %r" % (got[-1][1], got[-1][0], got[-1][2]) if got and got[-1][0] != "copy" else got[-1:] or "no store", W, com[0], com[2]))
            else:
                self.ok(("C03", "C01"), "commit", "last store %r := %r" % (com[0], com[2]))
                rest = got[:-1]
                if any(g[0] == com[0] for g in rest): self.bad(("C01",), "single", "the target word is written more than once")
                else: self.ok(("C01",), "single")
                if sorted(map(repr, rest)) != sorted(map(repr, exp)):
                    self.bad(("C03",) + (("C01",) if len(rest) > len(exp) else ()), "tentative", "tentative writes are %r, documented %r" % (rest, exp))
                else: self.ok(("C03",), "tentative")
            if writes:
                last = writes[-1][4].loc
                if last[0] == self.post[0] and last[1] + 1 == self.post[1] and writes[-1][0] == "store": self.ok(("C01", "C04"), "last", "the commit store is the last instruction of the section")
                else: self.bad(("C01", "C04"), "last", "the commit '%s' is not the last instruction of the restartable range: %s" % (writes[-1][4].text, "an abort after it reports -1 with the result visible" if self.inr((last[0], last[1] + 1)) else "the range ends elsewhere"))
        self.cond(succ > 0, ("C03",), "reach-success", "no path reports success")
        if conds: self.cond(miss > 0, ("C03",), "reach-mismatch", "no path reports a failed comparison")
        self.cond(any(o[3] == -1 for o in self.outs), ("C02", "C03"), "reach-abort", "no path reaches the abort exit: the index is never compared")
        # ways out and in
        for kind, w, st, ret, eff in self.outs:
            for e in st.ev:
                if e[0] not in ("jump", "exit"): continue
                src = e[1].loc; tgt = e[2] if e[0] == "jump" else None
                if e[0] == "exit": continue
                if not self.inr(src):
                    if tgt[0] != "lbl" and self.inr(tgt) and tgt != self.start: self.bad(("C04",), "entry", "'%s' jumps into the section from outside" % e[1].text)
                    continue
                if tgt[0] != "lbl" and (self.inr(tgt) or tgt in (self.abort, self.post)): continue
                if tgt == ("lbl", w) and ret == -1 and kind == "label": continue
                fin = ("lbl", w) if kind == "label" else None
                if tgt in self.decl or (fin and fin in self.decl): self.ok(("C04",), "exits")
                else:
                    if ret == -1 and tgt != self.abort: self.ok(("C04",), "exits"); continue
                    self.bad(("C04",), "exits", "the way out '%s' is not declared as an exit point" % e[1].text)
    # ---- abort from any point of the section
    def aborts(self):
        m = self.m; n = 0; seen = set()
        for loc, st in self.points:
            if not self.inr(loc): continue
            s2 = st.clone(); s2.ev = []; s2.L = {}
            for kind, w, se in m.explore(self.abort, s2):
                n += 1
                if kind not in ("label", "fall"): self.bad(("C04", "C03"), "abort-path", "the abort handler runs into %s" % kind); continue
                t = self.s.asm.attrs["targets"][0] if kind == "fall" else self.labels.get(w)
                r, eff = self.s.after(t)
                v = sg(isc(r[1]), r[1].w) if r[0] == "ret" and isc(r[1]) is not None else None
                if v != -1: self.bad(("C04", "C03", "C01"), "abort-path", "a restart reports %s instead of -1" % (v,))
                elif any(e[0] in ("store", "copy", "areastore") for e in se.ev) or eff: self.bad(("C01",), "abort-path", "the abort handler writes memory")
                else: self.ok(("C04", "C03", "C01"), "abort-path", "from every point of the section the abort handler returns -1 without writing")
                k = self.regstate(se)
                if k and (k not in seen): seen.add(k); self.bad(("C06",), "abort-state", "a restart at '%s' leaves %s" % (self.p.insn(loc).text, k))
        if n and not seen: self.ok(("C06",), "abort-state", "%d abort states" % n)
    def regstate(self, st):
        out = []
        for r in sorted(st.written):
            if r in self.clobs: continue
            v = st.regs.get(r)
            if v is not None and v == A(self.m.W, ("init", r)): continue
            out.append("register %s modified without being declared" % r)
        for n in sorted(st.wops):
            o = self.ops[n]
            if o.cons.startswith(("=", "+")): continue
            if st.ops[n] != o.t: out.append("input operand %d modified (%r)" % (n, st.ops[n]))
        return "; ".join(out)
    # ---- C06
    def state(self):
        good = True
        for kind, w, st, ret, eff in self.outs:
            k = self.regstate(st)
            if k: good = False; self.bad(("C06",), "state", "the exit returning %s leaves %s" % (ret, k))
            for e in st.ev:
                if e[0] == "trap":
                    if self.inr(e[1].loc) or self.arch.w == 64: good = False; self.bad(("C06",), "trap", "'%s' in the operation" % e[1].text)
                if e[0] == "stack":
                    if self.inr(e[1].loc) or self.arch.fam == "x86": good = False; self.bad(("C06",), "stack", "'%s' uses the stack" % e[1].text)
            if st.flagw and self.arch.fam in ("arm", "aarch64", "s390", "ppc"):
                fl = set(st.flagw) if isinstance(st.flagw, frozenset) else {"cc"}
                for c in fl:
                    if c == "cr0": c = "cc"
                    if c in self.clobs or (c == "cc" and "cr0" in self.clobs): continue
                    good = False; self.bad(("C06",), "flags", "condition register %s is modified without being declared" % c)
            if self.arch.fam == "x86" and "flags" not in self.clobs and "cc" not in self.clobs: good = False; self.bad(("C06",), "flags", "flags are modified without being declared")
        if "memory" not in self.clobs: good = False; self.bad(("C06", "C05"), "memory", "the compiler is not told that memory changes")
        if good: self.ok(("C06",), "state", "%d exits" % len(self.outs))
    # ---- C05
    def order(self):
        if self.mo == 0: return
        for kind, w, st, ret, eff in self.outs:
            if ret != 0: continue
            idx = [i for i, e in enumerate(st.ev) if e[0] in ("store", "copy")]
            if not idx: continue
            c = idx[-1]; last = max([i for i, e in enumerate(st.ev[:c]) if e[0] in ("store", "copy", "load") and not (e[0] == "load" and e[3] == st.ev[c][4].loc)], default=-1)
            rel = st.ev[c][0] == "store" and st.ev[c][5]
            fb = any(e[0] == "bar" and e[1] == "full" for e in st.ev[last + 1:c])
            self.cond(self.arch.tso or rel or fb, ("C05",), "release", "the release variant has neither a barrier ordering reads and writes nor a store-release between the tentative accesses and the commit store", "barrier" if fb else "store-release" if rel else "TSO")

def job(arch, variant):
    def go(rep):
        defs = {"": [], "twice": ["-DDRV_FEW", "-DRSEQ_COMPARE_TWICE"]}[variant]
        try: txt = asmx.compile_ir(arch, SRC, defs, opt="-O2")
        except cc.CompileError as e:
            rep.und(("C01", "C02", "C03", "C04", "C05", "C06", "C07"), "asm.compile", arch.name + " " + variant, str(e)[:600]); return
        mod = Module(txt)
        g = re.search(r"@drv_sig = .*?constant i32 (-?\d+)", txt); sig = int(g.group(1)) & 0xffffffff
        have = set()
        for f in mod.funcs:
            if not f.startswith("drv_") or not mod.funcs[f].blocks: continue
            x = Sec(rep, mod, arch, f, variant, sig); have.add(x.op)
            try: x.run()
            except asmx.Wrong as e: x.bad(("C03", "C02") if "branches on" in str(e) else ("C03",), "control", str(e))
            except Unknown as e: rep.und(("C01", "C02", "C03", "C04", "C05", "C06", "C07"), "asm.section", x.where, str(e))
            except Exception:
                import traceback
                rep.und(("C01", "C02", "C03", "C04", "C05", "C06", "C07"), "asm.section", x.where, traceback.format_exc()[-500:])
        want = set(OPS) - (set() if arch.name == "x86-64" else {"load_add_load_load_add_store"})
        if want <= have: rep.ok(("C07", "C29"), "asm.operations", arch.name + " " + variant, "%d operations" % len(have))
        else: rep.bad(("C07", "C29"), "asm.operations", arch.name + " " + variant, "operations missing: %s" % ", ".join(sorted(want - have)), site="include/rseq/arch/%s" % WHERE[arch.fam])
    return go

def run(rep, m=None):
    parallel(rep, [job(a, v) for a in asmx.ARCHS for v in ("", "twice")])
