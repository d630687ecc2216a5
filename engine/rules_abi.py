"""Layout of the per-thread area and its accessors (C08), on every supported architecture.

The layout constants are the compiler's; each accessor is interpreted over linear terms (thread pointer + published
offset + constant) once per class of feature size and of cpu_id value, the classes together covering every value."""
import os, re
import asmx, cc, bitdom
from asmx import A, K, T, add, sub, isc, single, sg, Unknown
from bitdom import AV
from ir import Module
from report import parallel
P = ("C08",)
SRC = os.path.join(asmx.DRV, "abi.c")
LAY = {"off_cpu_id_start": 0, "len_cpu_id_start": 4, "off_cpu_id": 4, "len_cpu_id": 4, "off_rseq_cs": 8, "len_rseq_cs": 8, "off_ptr64": 8, "len_ptr64": 8,
    "off_flags": 16, "len_flags": 4, "off_node_id": 20, "len_node_id": 4, "off_mm_cid": 24, "len_mm_cid": 4, "off_end": 28,
    "off_version": 0, "len_version": 4, "off_csflags": 4, "len_csflags": 4, "off_start_ip": 8, "len_start_ip": 8, "off_post_commit_offset": 16, "len_post_commit_offset": 8, "off_abort_ip": 24, "len_abort_ip": 8, "size_cs": 32,
    "val_UNINITIALIZED": -1, "val_REGISTRATION_FAILED": -2, "val_UNREGISTER": 1, "val_NO_RESTART_ON_PREEMPT": 1, "val_NO_RESTART_ON_SIGNAL": 2, "val_NO_RESTART_ON_MIGRATE": 4}
NR = {"x86-64": 334, "i386": 386, "arm": 398, "thumb": 398, "armeb": 398, "aarch64": 293, "aarch64_be": 293, "ppc": 387, "ppc64": 387, "ppc64le": 387,
    "s390x": 383, "riscv64": 293, "riscv32": 293, "loongarch64": 293, "mips": 4367, "mipsel": 4367, "mips64": 5327, "mips64el": 5327}
def sizes():
    for v in range(0, 65): yield AV.const(32, v), v
    yield AV(32, 65, (1 << 31) - 1), 65
CPUS = [(AV.const(32, 0), False), (AV(32, 1, (1 << 31) - 1), False), (AV(32, 1 << 31, (1 << 32) - 3), True), (AV.const(32, -2), True), (AV.const(32, -1), True)]

class Acc(asmx.Site):
    """one accessor under one class of inputs"""
    def __init__(self, mod, arch, fname, size, cpu):
        self.arch = arch; self.f = mod.funcs[fname]; self.mod = mod; self.W = arch.w
        self.env = {}; self.mem = {}; self.pre = []; self.av = {"@rseq_size": size}; self.cpu = cpu; self.acc = []; self.calls = []
        self.area = add(A(self.W, ("tp",)), A(self.W, ("glob", "rseq_offset")))
        b = self.f.blocks[0]; n = 0; prev = None
        while True:
            ph = {}; pa = {}
            for i in b.insts:
                if i.op == "phi":
                    for v, l in self.incoming(i):
                        if l == prev:
                            ph[i.res] = self.val(v)
                            x = self.aval(v)
                            if x is not None: pa[i.res] = x
            self.env.update(ph); self.av.update(pa); nxt = None
            for i in b.insts:
                nxt = self.one(i)
                if nxt is not None: break
            if nxt[0] in ("ret", "die"): self.out = nxt; return
            prev = b.name; b = self.f.bmap[nxt[1]]; n += 1
            if n > 60: raise Unknown("control flow")
    def aval(self, v):
        if v.kind == "int": return AV.const(v.ty.bits, v.val)
        return self.av.get(v.name) if v.kind == "local" else None
    def one(self, i):
        fl = i.attrs.get("flags") or (); vol = "volatile" in fl or bool(i.attrs.get("atomic"))
        if i.op in ("load", "store"):
            a = self.val(i.args[0 if i.op == "load" else 1]); w = self.w(i.ty) if i.op == "load" else self.w(i.args[0].ty)
            x = single(a)
            if not (x is not None and x[0] in ("addr", "alloca")):
                self.acc.append((i.op, a, w, vol, None if i.op == "load" else self.val(i.args[0])))
                if i.op == "load":
                    self.env[i.res] = A(w, ("acc", len(self.acc) - 1))
                    d = sub(a, self.area)
                    if not d.m and d.c == 4 and w == 32: self.av[i.res] = self.cpu
                return None
            if i.op == "store" and x[0] == "addr": self.acc.append(("gstore", a, w, vol, None)); return None
            if i.op == "load" and x[0] == "addr" and "@" + x[1] in self.av and w == 32: self.av[i.res] = self.av["@" + x[1]]
        if i.op == "call" and i.extra[0] == "fn" and not i.extra[1].startswith("llvm."):
            if i.extra[1] in ("abort", "__assert_fail", "exit", "_exit"): return ("die",)
            self.calls.append(i.extra[1])
            if i.res: self.env[i.res] = A(self.w(i.ty), ("call", len(self.calls) - 1))
            return None
        if i.op == "br" and len(i.extra) == 2:
            c = self.aval(i.args[0]); c = c.single() if c is not None else None
            if c is None: raise Unknown("branch on something else than the feature size or the cpu_id")
            return ("goto", i.extra[0 if c else 1])
        if i.op == "switch": raise Unknown("switch")
        if i.op == "select":
            c = self.aval(i.args[0]); c = c.single() if c is not None else None
            if c is not None:
                v = i.args[1 if c else 2]; self.env[i.res] = self.val(v); x = self.aval(v)
                if x is not None: self.av[i.res] = x
                return None
        r = self.step(i, None)
        if i.res and i.op not in ("load", "call", "alloca", "getelementptr"):
            try: self.av[i.res] = bitdom._inst(self.mod, self.f, i, self.av, 0)
            except (Unknown, bitdom.Unknown, KeyError, AttributeError): pass
        return r

FIELD = {"cpu_raw": ("cpu_id", 4, "rseq_current_cpu_raw"), "cpu_start": ("cpu_id_start", 0, "rseq_cpu_start"), "cpu": ("cpu_id", 4, "rseq_current_cpu"),
    "node": ("node_id", 20, "rseq_current_node_id"), "cid": ("mm_cid", 24, "rseq_current_mm_cid"), "clear": ("rseq_cs", None, "rseq_clear_rseq_cs"), "unload": ("rseq_cs", None, "rseq_prepare_unload")}
KNOWN = ("tp", "glob", "reg", "addr")

def accessor(rep, mod, arch, name, where):
    fld, off, pub = FIELD[name]; site = "include/rseq/rseq.h " + pub + " (%s)" % where; rule = "abi.accessor"; wh = where + " " + pub
    rep.analysed("include/rseq/rseq.h:" + pub)
    if off is None: off = 8 + (4 if arch.big and arch.w == 32 else 0)
    n = 0
    for size, sv in sizes():
        if name == "node" and sv < 24 or name == "cid" and sv < 28: continue
        for cpu, neg in CPUS:
            try: x = Acc(mod, arch, "abi_" + name, size, cpu)
            except Unknown as e: rep.und(P, rule, wh, str(e)); return
            def bad(t): rep.bad(P, rule, wh, t + " (feature size %s, cpu_id %s)" % (sv if sv < 65 else "above 64", "negative" if neg else "non-negative"), site)
            if x.out[0] == "die": return bad("ends the program although the field is available")
            fb = name == "cpu" and neg
            if [c for c in x.calls if not (fb and c == "rseq_fallback_current_cpu")]: return rep.und(P, rule, wh, "calls %s" % x.calls)
            for op, a, w, vol, v in x.acc:
                if op == "gstore": return bad("writes a global variable")
                d = sub(a, x.area)
                if d.m:
                    if all(t[0] in KNOWN for t, k in a.m): return bad("accesses %r: not the calling thread's area (thread pointer + rseq_offset)" % (a,))
                    return rep.und(P, rule, wh, "address %r" % (a,))
                want = arch.w if fld == "rseq_cs" else 32
                if op == ("store" if fld != "rseq_cs" else "load"): return bad("%ss the area" % op)
                if (sg(d.c, x.W), w) != (off, want):
                    if not (fld == "rseq_cs" and arch.w == 32 and (sg(d.c, x.W), w) == (8, 64)): return bad("accesses %d bits at offset %d of the area: field %s is %d bits at offset %d" % (w, sg(d.c, x.W), fld, want, off))
                if not vol: return bad("the access to %s is not volatile: the compiler may repeat, tear or drop it" % fld)
                if op == "store" and isc(v) != 0:
                    if v.m and any(t[0] not in KNOWN for t, k in v.m): return rep.und(P, rule, wh, "stores %r" % (v,))
                    return bad("stores %r to the section pointer instead of clearing it" % (v,))
            if len(x.acc) != 1: return bad("accesses the field %d times instead of once" % len(x.acc))
            if fld != "rseq_cs":
                r = x.out[1]; want = A(32, ("call", 0)) if fb else A(32, ("acc", 0))
                if fb and not x.calls: return bad("returns the negative cpu_id instead of asking for the current CPU")
                if fb and len(x.calls) != 1: return bad("asks for the current CPU %d times" % len(x.calls))
                if r != want: return bad("returns %r, not %s" % (r, "the fallback's answer" if fb else "the value of " + fld)) if r is not None and all(t[0] in ("acc", "call") for t, k in r.m) else rep.und(P, rule, wh, "returns %r" % (r,))
            n += 1
    rep.ok(P, rule, wh, "one volatile access to %s at offset %d of thread pointer + rseq_offset (%d classes)" % (fld, off, n))

def avail(rep, mod, arch, name, need, pub, where):
    rule = "abi.available"; wh = where + " " + pub; f = mod.funcs["abi_" + name]
    rep.analysed("include/rseq/rseq.h:" + pub); unk = None
    for size, sv in sizes():
        try: r = bitdom._block(mod, f, f.blocks[0].name, None, {"@rseq_size": size}, 0, 0)
        except (Unknown, bitdom.Unknown, KeyError) as e: unk = unk or str(e); continue
        e = 1 if sv >= need else 0; v = r.single()
        if v is not None and v != e:
            return rep.bad(P, rule, wh, "reports the feature %savailable with an active feature size %s: the field ends at byte %d" % ("" if v else "un", "of %d" % sv if sv < 65 else "above 64", need), "include/rseq/rseq.h " + pub)
        if v is None: unk = unk or "imprecise for size %d" % sv
    if unk: rep.und(P, rule, wh, unk)
    else: rep.ok(P, rule, wh, "available exactly when the feature size is at least %d" % need)

def layout(rep, txt, arch, where):
    c = {k: int(v) for k, v in re.findall(r"@lay_(\w+) = [^\n]*?constant i\d+ (-?\d+)", txt)}
    rep.analysed("include/rseq/abi.h:struct rseq_abi"); rep.analysed("include/rseq/abi.h:struct rseq_abi_cs")
    lay = dict(LAY); lay["len_arch_ptr"] = arch.w // 8; lay["off_arch_ptr"] = 8 + (4 if arch.big and arch.w == 32 else 0)
    good = 0
    for k, v in lay.items():
        if k not in c: rep.und(P, "abi.layout", where, "constant %s not emitted" % k); continue
        m = (1 << arch.w) - 1
        if c[k] & m != v & m:
            kind, f = k.split("_", 1)
            rep.bad(P + (("C04",) if f in ("version", "csflags", "start_ip", "post_commit_offset", "abort_ip", "cs") else ("C09",)), "abi.layout", where + " " + f, "%s of %s is %d, the kernel's is %d" % ({"off": "offset", "len": "size", "val": "value", "size": "size"}[kind], f, c[k], v), "include/rseq/abi.h (%s)" % where)
        else: good += 1
    for k in ("align_abi", "align_cs"):
        if c.get(k, 0) % 32 or not c.get(k): rep.bad(P, "abi.layout", where + " " + k, "alignment %s, the kernel requires 32" % c.get(k), "include/rseq/abi.h (%s)" % where)
        else: good += 1
    if c.get("size_abi", 0) < 32: rep.bad(P, "abi.layout", where + " size", "the area is %s bytes: the kernel's original area is 32" % c.get("size_abi"), "include/rseq/abi.h (%s)" % where)
    else: good += 1
    if "val_NR" in c:
        if c["val_NR"] != NR[arch.name]: rep.bad(P + ("C09",), "abi.syscall", where, "system call number %d, the kernel's is %d" % (c["val_NR"], NR[arch.name]), "include/rseq/abi.h __NR_rseq (%s)" % where)
        else: rep.ok(P, "abi.syscall", where, "system call number %d" % c["val_NR"])
    if good == len(lay) + 3: rep.ok(P, "abi.layout", where, "%d offsets, sizes, alignments and constants" % good)

def job(arch, old):
    def go(rep):
        where = arch.name + (" (older compiler)" if old else "")
        try: txt = asmx.compile_ir(arch, SRC, opt="-O1", extra=["-fgnuc-version=4.9.0"] if old else [])
        except cc.CompileError as e: rep.und(P, "abi.compile", where, str(e)[:600]); return
        mod = Module(txt)
        if not old: layout(rep, txt, arch, where)
        for n in FIELD: accessor(rep, mod, arch, n, where)
        avail(rep, mod, arch, "node_av", 24, "rseq_node_id_available", where)
        avail(rep, mod, arch, "cid_av", 28, "rseq_mm_cid_available", where)
    return go

def run(rep, m=None):
    parallel(rep, [job(a, o) for a in asmx.ARCHS for o in (0, 1) if not o or a.fam in ("x86", "riscv", "loongarch")])

if __name__ == "__main__":
    from report import Report
    r = Report(); run(r)
    for k, v in r.obl.items():
        if v[1] != "holds": print(v[1], k, v[2][:300])
    print(len(r.obl))
