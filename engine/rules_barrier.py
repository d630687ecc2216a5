"""Ordering primitives of every architecture: C05."""
import os, re
import asmx, cc
from ir import Module
from report import parallel

SRC = os.path.join(asmx.DRV, "bar.c")
ALL = frozenset(("rr", "rw", "wr", "ww"))
NEED = {"mb": ALL, "rmb": {"rr"}, "wmb": {"ww"}, "ctrl": {"rr"}, "compiler": set()}
TSO = {"rr", "rw", "ww"}
FENCE = {"seq_cst": ALL, "acq_rel": {"rr", "rw", "ww"}, "acquire": {"rr", "rw"}, "release": {"rw", "ww"}}

def insns(t): return [x.strip() for x in re.split(r"[;\n]", re.sub(r"#.*", "", t)) if x.strip()]

def asm_order(arch, t):
    """pairs of accesses an asm statement orders on the processor; None when not understood"""
    l = insns(t); f = arch.fam; out = set()
    if not l: return set()
    k = 0
    while k < len(l):
        x = l[k]; k += 1
        if f == "x86":
            if x == "lock" and k < len(l): x = "lock " + l[k]; k += 1
            if x == "mfence": out |= ALL; continue
            if x in ("lfence", "sfence", "pause"): continue
            m = re.match(r"^lock\s+(add|or|sub|xor)([lqbw])\s+\$\$0x?0*,\s*(-?\d*)\(%(\w+)\)$", x)
            if m:
                if m.group(4) == ("rsp" if arch.w == 64 else "esp"): out |= ALL; continue
                return None
        elif f == "arm":
            m = re.match(r"^(dmb|dsb)(?:\s+(\w+))?$", x)
            if m: out |= ALL if m.group(2) in (None, "sy", "ish") else {"ww"} if m.group(2) in ("ishst", "st") else set(); continue
        elif f == "aarch64":
            m = re.match(r"^(dmb|dsb)\s+(\w+)$", x)
            if m: out |= {"ish": ALL, "sy": ALL, "ishld": {"rr", "rw"}, "ld": {"rr", "rw"}, "ishst": {"ww"}, "st": {"ww"}}.get(m.group(2), set()); continue
            m = re.match(r"^(ldar|stlr)([bh]?)\s", x)
            if m: out |= {"rr", "rw"} if m.group(1) == "ldar" else {"rw", "ww"}; continue
            if re.match(r"^(ldr|str)([bh]?)\s", x): continue
        elif f == "ppc":
            if x in ("sync", "hwsync", "msync"): out |= ALL; continue
            if x == "lwsync": out |= {"rr", "rw", "ww"}; continue
            if x == "eieio": out |= {"ww"}; continue
            if x == "isync": continue
        elif f == "mips":
            m = re.match(r"^sync(?:\s+(\w+))?$", x)
            if m: out |= {0: ALL, 0x10: ALL, 0x11: {"rr", "rw"}, 0x12: {"rw", "ww"}, 0x13: {"rr"}, 4: {"ww"}}.get(int(m.group(1) or "0", 0), set()); continue
        elif f == "s390":
            if re.match(r"^bcr\s+1[45]\s*,\s*(%r)?0$", x): out |= ALL; continue
        elif f == "riscv":
            m = re.match(r"^fence(?:\s+(\w+)\s*,\s*(\w+))?$", x)
            if m:
                p, s = (m.group(1) or "rw"), (m.group(2) or "rw")
                out |= {a + b for a in p if a in "rw" for b in s if b in "rw"}; continue
        elif f == "loongarch":
            m = re.match(r"^dbar\s+(\w+)$", x)
            if m:
                h = int(m.group(1), 0)
                if h & ~0x1f: out |= ALL; continue
                out |= {a + b for a, ab in (("r", 8), ("w", 4)) if not h & ab for b, bb in (("r", 2), ("w", 1)) if not h & bb}
                if h == 0x700: pass
                continue
        if x == "nop": continue
        return None
    return out

class F:
    def __init__(self, rep, arch, mod, name):
        self.rep, self.arch, self.name = rep, arch, name; self.f = mod.funcs[name]
        self.where = "%s %s" % (arch.name, name[4:]); self.site = "include/rseq/arch/%s.h: %s" % (asmx_dir(arch), MACRO.get(name[4:].split("_")[0], name))
    def items(self):
        """straight-line list of ("asm", template, constraints, orders, args, res) ("load", ...) ("store", ...) ("fence", set)"""
        if len(self.f.blocks) != 1: return None
        out = []
        for i in self.f.blocks[0].insts:
            if i.op == "call" and i.extra[0] == "asm":
                o = asm_order(self.arch, i.extra[1])
                out.append(("asm", i.extra[1], i.extra[2], o, i, "sideeffect" in i.extra[3]))
            elif i.op == "call":
                if i.extra[0] == "fn" and i.extra[1].startswith(("llvm.lifetime", "llvm.dbg")): continue
                return None
            elif i.op == "fence": out.append(("fence", FENCE.get(i.extra, set())))
            elif i.op == "load": out.append(("load", i))
            elif i.op == "store": out.append(("store", i))
            elif i.op in ("alloca", "ret", "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"): pass
            else: return None
        return out
    def und(self, d): self.rep.und(("C05",), "barrier.primitive", self.where, d)
    def bad(self, d): self.rep.bad(("C05",), "barrier.primitive", self.where, d, site=self.site + " (" + self.arch.name + ")")
    def ok(self, d): self.rep.ok(("C05",), "barrier.primitive", self.where, d)
    def run(self):
        self.rep.analysed(self.where)
        kind = self.name[4:].split("_")[0]; arch = self.arch; base = TSO if arch.tso else set()
        it = self.items()
        if it is None: return self.und("not straight-line code")
        if any(x[0] == "asm" and x[3] is None for x in it): return self.und("instruction not known: %r" % [x[1] for x in it if x[0] == "asm"])
        def comp(x): return x[0] == "fence" or (x[0] == "asm" and x[5] and "~{memory}" in x[2])
        if kind in NEED:
            got = set(base); c = False
            for x in it:
                if comp(x): c = True; got |= x[3] if x[0] == "asm" else x[1]
            if not c: return self.bad("no compiler barrier (volatile asm with a memory clobber) is issued")
            miss = NEED[kind] - got
            return self.bad("does not order %s on this architecture" % ", ".join(sorted(miss))) if miss else self.ok("orders %s" % (", ".join(sorted(NEED[kind])) or "the compiler"))
        n = self.f.params; w = {"u8": 8, "s8": 8, "u16": 16, "s16": 16, "u32": 32, "s32": 32}.get(self.name.split("_")[-1], arch.w)
        acc = []
        for k, x in enumerate(it):
            if x[0] in ("load", "store"):
                i = x[1]; a = i.args[0] if x[0] == "load" else i.args[1]
                if a.kind == "local" and a.name == n[0][0]: acc.append((k, x))
                elif not (a.kind == "local"): return self.und("other memory accessed")
            elif x[0] == "asm" and any(v.kind == "local" and v.name == n[0][0] for v in x[4].args): acc.append((k, x))
        want = "load" if kind in ("acquire", "read") else "store"
        if len(acc) != 1: return self.bad("accesses the word %d times" % len(acc)) if it and not any(x[0] == "asm" and x[4].args for x in it) else self.und("accesses not understood")
        k, x = acc[0]; order = set(base); cbar = False
        if x[0] == "asm":
            m = re.match(r"^(ldar|stlr|ldr|str)([bh]?)\s+(\$\{\d:w\}|\$\d)", insns(x[1])[0])
            if not m or len(insns(x[1])) != 1: return self.und("asm access " + x[1])
            wid = {"b": 8, "h": 16}.get(m.group(2), 32 if ":w" in m.group(3) else 64)
            if (m.group(1)[:2] == "ld") != (want == "load"): return self.bad("'%s' is not a %s" % (x[1], want))
            if wid != w: return self.bad("'%s' accesses %d bits of a %d-bit word" % (x[1], wid, w))
            if not x[5]: return self.bad("the access may be removed or moved by the compiler")
            order |= x[3]; cbar = "~{memory}" in x[2]
        else:
            i = x[1]; ty = i.ty if x[0] == "load" else i.args[0].ty
            wid = arch.w if ty.kind == "ptr" else ty.bits
            if x[0] != want: return self.bad("is a %s" % x[0])
            if wid != w: return self.bad("accesses %d bits of a %d-bit word" % (wid, w))
            at = i.attrs.get("atomic"); od = i.attrs.get("ordering")
            if not at and "volatile" not in i.attrs["flags"]: return self.bad("the access is not volatile: the compiler may tear, repeat or move it")
            if want == "store" and not (i.args[0].kind == "local"): return self.bad("stores something else than its argument")
            if at and od in ("acquire", "seq_cst") and want == "load": order |= {"rr", "rw"}; cbar = True
            if at and od in ("release", "seq_cst") and want == "store": order |= {"rw", "ww"}; cbar = True
        if kind in ("read", "write"): return self.ok("one volatile access")
        for y in (it[k + 1:] if kind == "acquire" else it[:k]):
            if comp(y): cbar = True; order |= y[3] if y[0] == "asm" else y[1]
        need = {"rr", "rw"} if kind == "acquire" else {"rw", "ww"}
        if not cbar: return self.bad("no compiler barrier %s the access" % ("after" if kind == "acquire" else "before"))
        if need - order: return self.bad("%s does not order %s" % ("load-acquire" if kind == "acquire" else "store-release", ", ".join(sorted(need - order))))
        self.ok("one access, orders %s" % ", ".join(sorted(need)))

MACRO = {"mb": "rseq_smp_mb", "rmb": "rseq_smp_rmb", "wmb": "rseq_smp_wmb", "ctrl": "rseq_smp_acquire__after_ctrl_dep", "compiler": "rseq_barrier",
    "acquire": "rseq_smp_load_acquire", "release": "rseq_smp_store_release", "read": "RSEQ_READ_ONCE", "write": "RSEQ_WRITE_ONCE"}
def asmx_dir(arch): return arch.fam

def job(arch):
    def go(rep):
        try: txt = asmx.compile_ir(arch, SRC, opt="-O1")
        except cc.CompileError as e: rep.und(("C05",), "barrier.compile", arch.name, str(e)[:600]); return
        mod = Module(txt)
        for f in mod.funcs:
            if f.startswith("bar_") and mod.funcs[f].blocks: F(rep, arch, mod, f).run()
    return go

def run(rep, m=None): parallel(rep, [job(a) for a in asmx.ARCHS])
