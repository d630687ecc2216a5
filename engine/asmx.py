"""Inline-assembly critical sections: extraction from the compiler's IR and dataflow analysis.

For each architecture the public headers are compiled (never run) with a driver that instantiates every public operation;
the template, constraints, operands and clobbers of each asm goto are taken from the IR.  Instructions are interpreted over a
domain of linear terms (provenance of each register and memory word), following every branch; byte-copy loops are summarised.
"""
import os, re, subprocess
import cc
from ir import Module, Val

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRV = os.path.join(HERE, "asmdrv")

class Unknown(Exception): pass
class Wrong(Exception): pass

# ------------------------------------------------------------------ terms: const + sum coeff*atom, modulo 2^w
class T:
    __slots__ = ("w", "c", "m", "_h")
    def __init__(self, w, c=0, m=()):
        self.w = w; self.c = c & ((1 << w) - 1)
        self.m = tuple(sorted(((a, k & ((1 << w) - 1)) for a, k in m if k & ((1 << w) - 1)), key=lambda x: repr(x)))
        self._h = hash((self.w, self.c, self.m))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, T) and self._h == o._h and (self.w, self.c, self.m) == (o.w, o.c, o.m)
    def __repr__(self):
        if not self.m: return str(sg(self.c, self.w))
        s = ""
        for a, k in self.m:
            k = sg(k, self.w)
            s += (" + " if k > 0 and s else " - " if k < 0 and s else "-" if k < 0 else "") + ("" if abs(k) == 1 else "%d*" % abs(k)) + show(a)
        c = sg(self.c, self.w)
        return s + (" + %d" % c if c > 0 else " - %d" % -c if c < 0 else "")

def show(a):
    k = a[0]
    if k == "arg": return a[1]
    if k == "load": return "load%d(%r)%s" % (a[1], a[2], "" if a[3] in (0, "in") else "@%s" % (a[3],))
    if k == "sym": return "label<%s+%d>" % (a[1] or "text", a[2])
    if k in ("zx", "sx", "xx", "tr"): return "%s%d(%r)" % (k, a[1], a[2])
    if k == "init": return "%s at entry" % a[1]
    if k == "glob": return a[1]
    return "/".join(str(x) for x in a)

def sg(v, w): return v - (1 << w) if v >> (w - 1) else v
def K(w, v): return T(w, v)
def A(w, a): return T(w, 0, ((a, 1),))
def add(a, b, s=1):
    if a.w != b.w: raise Unknown("width mismatch %d/%d" % (a.w, b.w))
    d = dict(a.m)
    for x, k in b.m: d[x] = d.get(x, 0) + s * k
    return T(a.w, a.c + s * b.c, d.items())
def sub(a, b): return add(a, b, -1)
def mulc(a, n): return T(a.w, a.c * n, [(x, k * n) for x, k in a.m])
def isc(a): return a.c if not a.m else None
def single(a): return a.m[0][0] if a.c == 0 and len(a.m) == 1 and a.m[0][1] == 1 else None
def trunc(w, t):
    if t.w == w: return t
    if t.w < w: raise Unknown("trunc up")
    r = K(w, t.c)
    for a, k in t.m: r = add(r, mulc(tratom(w, a), k))
    return r
def tratom(w, a):
    if a[0] in ("zx", "sx", "xx"):
        if a[2].w == w: return a[2]
        if a[2].w > w: return trunc(w, a[2])
        if a[0] == "xx": return A(w, ("tr", w, A(a[1], a)))
        return A(w, (a[0], w, a[2]))
    if a[0] == "ins":
        if a[2] == w: return a[4]
        if a[2] > w: return trunc(w, a[4])
    if a[0] == "tr": return A(w, ("tr", w, a[2]))
    return A(w, ("tr", w, a))
def ext(kind, w, t):
    if t.w == w: return t
    c = isc(t)
    if c is not None: return K(w, sg(c, t.w) if kind == "sx" else c)
    a = single(t)
    if a is not None and a[0] == kind: return A(w, (kind, w, a[2]))
    return A(w, (kind, w, t))
def atoms(t, acc=None):
    acc = set() if acc is None else acc
    for a, k in t.m:
        if a not in acc:
            acc.add(a)
            for x in a:
                if isinstance(x, T): atoms(x, acc)
    return acc
def subst(t, at, v):
    """replace atom at by term v everywhere"""
    r = K(t.w, t.c)
    for a, k in t.m:
        if a == at: n = v
        else:
            a2 = tuple(subst(x, at, v) if isinstance(x, T) else x for x in a)
            n = A(t.w, a2)
        r = add(r, mulc(n, k))
    return r

def eqlit(a, b):
    """literal for a == b: True/False or canonical ("eq", term)"""
    x, y = single(a), single(b)
    if x is not None and y is not None and x[0] == y[0] and x[0] in ("zx", "sx") and x[2].w == y[2].w: return eqlit(x[2], y[2])
    for p, q in ((x, b), (y, a)):       # extended against constant
        if p is not None and p[0] in ("zx", "sx") and isc(q) is not None:
            c = isc(q); w = p[2].w
            v = c & ((1 << w) - 1)
            if (sg(v, w) & ((1 << q.w) - 1) if p[0] == "sx" else v) != c: return False
            return eqlit(p[2], K(w, v))
    d = sub(a, b)
    if not d.m: return d.c == 0
    e = mulc(d, -1)
    return ("eq", d if repr(d) <= repr(e) else e)

# ------------------------------------------------------------------ architectures
class Arch:
    def __init__(self, name, triple, w, big=False, fam=None, tso=False, intsx=False, extra=()):
        self.name, self.triple, self.w, self.big, self.fam, self.tso, self.intsx, self.extra = name, triple, w, big, fam or name, tso, intsx, list(extra)
ARCHS = [
    Arch("x86-64", "x86_64-linux-gnu", 64, fam="x86", tso=True),
    Arch("i386", "i686-linux-gnu", 32, fam="x86", tso=True),
    Arch("arm", "armv7a-linux-gnueabihf", 32, fam="arm"),
    Arch("aarch64", "aarch64-linux-gnu", 64, fam="aarch64"),
    Arch("ppc64le", "powerpc64le-linux-gnu", 64, fam="ppc"),
    Arch("ppc64", "powerpc64-linux-gnu", 64, True, fam="ppc"),
    Arch("ppc", "powerpc-linux-gnu", 32, True, fam="ppc"),
    Arch("mips", "mips-linux-gnu", 32, True, fam="mips", intsx=True),
    Arch("mipsel", "mipsel-linux-gnu", 32, fam="mips", intsx=True),
    Arch("mips64", "mips64-linux-gnuabi64", 64, True, fam="mips", intsx=True),
    Arch("s390x", "s390x-linux-gnu", 64, True, fam="s390", tso=True),
    Arch("riscv64", "riscv64-linux-gnu", 64, fam="riscv", intsx=True),
    Arch("thumb", "thumbv7a-linux-gnueabihf", 32, fam="arm"),
    Arch("armeb", "armebv7a-linux-gnueabihf", 32, True, fam="arm"),
    Arch("aarch64_be", "aarch64_be-linux-gnu", 64, True, fam="aarch64"),
    Arch("mips64el", "mips64el-linux-gnuabi64", 64, fam="mips", intsx=True),
    Arch("riscv32", "riscv32-linux-gnu", 32, fam="riscv", intsx=True),
    Arch("loongarch64", "loongarch64-linux-gnu", 64, fam="loongarch", intsx=True),
]
BYNAME = {a.name: a for a in ARCHS}

def cflags(arch, inc=True):
    return ["--target=" + arch.triple, "-nostdlibinc", "-isystem", os.path.join(DRV, "stubs"), "-I" + cc.REPO + "/include", "-fgnuc-version=14.0.0", "-D_GNU_SOURCE", *arch.extra]

def compile_ir(arch, src, defs=(), opt="-O1", extra=()):
    r = subprocess.run(["clang", *cflags(arch), "-Wno-everything", "-fno-discard-value-names", "-g0", opt, *defs, *extra, "-S", "-emit-llvm", src, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise cc.CompileError(r.stderr.decode(errors="replace")[:3000])
    return r.stdout.decode()

# ------------------------------------------------------------------ parsing of a template
class Insn:
    __slots__ = ("text", "mn", "ops", "loc", "lock")
    def __init__(self, text): self.text = text
class Data:
    __slots__ = ("vals", "align", "kind")
    def __init__(self, vals, kind=""): self.vals = vals; self.kind = kind

SIZES = {".byte": 1, ".2byte": 2, ".hword": 2, ".short": 2, ".half": 2, ".long": 4, ".4byte": 4, ".inst": 4, ".int": 4, ".quad": 8, ".8byte": 8, ".xword": 8, ".dword": 8, ".insn": 4}

def splitops(s):
    out = []; d = 0; cur = ""; q = False
    for ch in s:
        if ch == '"': q = not q
        if ch in "([{" and not q: d += 1
        if ch in ")]}" and not q: d -= 1
        if ch == "," and d == 0 and not q: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip() or out: out.append(cur.strip())
    return out

class Prog:
    """sections of items; a location is (section, index); labels are resolved by position"""
    def __init__(self, tmpl, arch):
        self.arch = arch; self.sec = {"": []}; self.labels = []     # (order, name, loc)
        self.aligns = {}; self.secflags = {}
        cur = [""]; order = 0; stmts = []
        tmpl = re.sub(r"/\*.*?\*/", " ", tmpl)
        for line in tmpl.split("\n"):
            line = re.sub(r"(^|\s)(//|@\s).*$", "", line) if arch.fam in ("arm", "aarch64") else line
            if arch.fam in ("x86", "ppc", "s390", "mips", "riscv", "loongarch"): line = re.sub(r"(^|\s)#.*$", "", line)
            for st in re.split(r";", line):
                st = st.strip()
                while st:
                    m = re.match(r"^([A-Za-z_.$0-9]+)\s*:\s*(?!lo12|hi12|got|tprel)", st)
                    if m and not st.startswith("${"):
                        order += 1; stmts.append((order, "label", m.group(1), None)); st = st[m.end():]; continue
                    break
                if not st: continue
                order += 1; stmts.append((order, "stmt", st, None))
        # first pass: positions
        raw = []; stack = []; lock = False
        for o, k, s, _ in stmts:
            sec = cur[-1]
            items = self.sec.setdefault(sec, [])
            if k == "label": self.labels.append((o, s, (sec, len(items)))); continue
            w = s.split(None, 1); op = w[0]; rest = w[1].strip() if len(w) > 1 else ""
            if op in (".pushsection", ".section"):
                nm = splitops(rest)[0].strip('"')
                if op == ".pushsection": cur.append(nm)
                else: cur[-1] = nm
                self.sec.setdefault(nm, []); self.secflags[nm] = rest
            elif op == ".popsection":
                if len(cur) < 2: raise Unknown("unbalanced .popsection")
                cur.pop()
            elif op in (".subsection", ".previous"): raise Unknown(op)
            elif op in (".balign", ".align", ".p2align"):
                n = int(rest.split(",")[0], 0)
                if op == ".p2align" or (op == ".align" and arch.fam in ("arm", "aarch64", "ppc", "mips", "riscv", "loongarch")): n = 1 << n
                self.aligns[(sec, len(items))] = max(n, self.aligns.get((sec, len(items)), 1))
            elif op in SIZES or op == ".word":
                sz = SIZES.get(op) or (2 if arch.fam == "x86" else 4)
                items.append(Data([(sz, x, o) for x in splitops(rest)], op))
            elif op.startswith("."):
                if op in (".set", ".equ", ".macro", ".rept", ".if", ".org", ".skip", ".space", ".zero", ".fill"): raise Unknown("directive " + op)
            else:
                if op in ("lock", "rep", "repz", "repne") and not rest: lock = op; continue
                i = Insn(s); i.mn = op; i.ops = splitops(rest); i.loc = (sec, len(items)); i.lock = lock; lock = False
                raw.append((o, i)); items.append(i)
        self.order = {i.loc: o for o, i in raw}
        if len(cur) != 1: raise Unknown("unbalanced .pushsection")
    def resolve(self, name, order):
        m = re.match(r"^(\d+)([bf])$", name)
        if m:
            c = [(o, l) for o, n, l in self.labels if n == m.group(1)]
            if m.group(2) == "b": c = [x for x in c if x[0] < order]; return c[-1][1] if c else None
            c = [x for x in c if x[0] > order]; return c[0][1] if c else None
        c = [l for o, n, l in self.labels if n == name]
        return c[0] if len(c) == 1 else None
    def expr(self, s, order, w):
        """assembler expression -> term"""
        toks = re.findall(r'\$\{\d+:l\}|"?\$\{\d+:l\}"?|0x[0-9a-fA-F]+|\d+[bf](?![0-9a-zA-Z])|\d+|[A-Za-z_.][\w.]*|[-+()~*<>|]', s.replace('"', ""))
        pos = 0
        def prim():
            nonlocal pos
            if pos >= len(toks): raise Unknown("expression " + s)
            t = toks[pos]; pos += 1
            if t == "(":
                r = addx()
                if pos >= len(toks) or toks[pos] != ")": raise Unknown("expression " + s)
                pos += 1; return r
            if t == "-": return mulc(prim(), -1)
            if t == "+": return prim()
            m = re.match(r"^\$\{(\d+):l\}$", t)
            if m: return A(w, ("lbl", int(m.group(1))))
            if re.match(r"^0x|^\d+$", t): return K(w, int(t, 0))
            l = self.resolve(t, order)
            if l is None: raise Unknown("symbol " + t)
            return A(w, ("sym",) + l)
        def addx():
            nonlocal pos
            r = prim()
            while pos < len(toks) and toks[pos] in "+-":
                o = toks[pos]; pos += 1
                r = add(r, prim(), 1 if o == "+" else -1)
            return r
        r = addx()
        if pos != len(toks): raise Unknown("expression " + s)
        return r
    def insn(self, loc):
        s = self.sec[loc[0]]
        return s[loc[1]] if loc[1] < len(s) else None

# ------------------------------------------------------------------ operands and state
class Operand:
    __slots__ = ("kind", "t", "cons", "outidx", "bits", "tied")
    def __init__(self, kind, t=None, cons="", outidx=None, bits=0): self.kind, self.t, self.cons, self.outidx, self.bits, self.tied = kind, t, cons, outidx, bits, None

class State:
    __slots__ = ("regs", "ops", "mem", "flags", "L", "ev", "armed", "stack", "ns", "written", "wops", "flagw", "trace")
    def clone(self):
        s = State()
        s.regs = dict(self.regs); s.ops = dict(self.ops); s.mem = dict(self.mem); s.flags = self.flags; s.L = dict(self.L); s.ev = list(self.ev)
        s.armed = self.armed; s.stack = list(self.stack); s.ns = self.ns; s.written = set(self.written); s.wops = set(self.wops); s.flagw = self.flagw
        s.trace = list(self.trace)
        return s

class Mem:
    __slots__ = ("addr",)
    def __init__(self, a): self.addr = a
class Lab:
    __slots__ = ("loc", "lbl")
    def __init__(self, loc=None, lbl=None): self.loc, self.lbl = loc, lbl

X86 = {}
for _b, _n in (("rax", ("rax", "eax", "ax", "al")), ("rbx", ("rbx", "ebx", "bx", "bl")), ("rcx", ("rcx", "ecx", "cx", "cl")), ("rdx", ("rdx", "edx", "dx", "dl")),
        ("rsi", ("rsi", "esi", "si", "sil")), ("rdi", ("rdi", "edi", "di", "dil")), ("rbp", ("rbp", "ebp", "bp", "bpl")), ("rsp", ("rsp", "esp", "sp", "spl"))):
    for _w, _x in zip((64, 32, 16, 8), _n): X86[_x] = (_b, _w)
for _i in range(8, 16):
    for _w, _s in ((64, ""), (32, "d"), (16, "w"), (8, "b")): X86["r%d%s" % (_i, _s)] = ("r%d" % _i, _w)
for _x in "abcd": X86[_x + "h"] = ("r%sx" % _x, -8)
RV = {"zero": "x0", "ra": "x1", "sp": "x2", "gp": "x3", "tp": "x4", "fp": "x8"}
for _i, _x in enumerate(("t0", "t1", "t2")): RV[_x] = "x%d" % (5 + _i)
for _i in range(12): RV["s%d" % _i] = "x%d" % (8 + _i if _i < 2 else 16 + _i)
for _i in range(8): RV["a%d" % _i] = "x%d" % (10 + _i)
for _i in range(3, 7): RV["t%d" % _i] = "x%d" % (25 + _i)

class Machine:
    def __init__(self, arch, prog, operands, clobbers):
        self.arch, self.p, self.ops, self.clob = arch, prog, operands, clobbers
        self.W = arch.w
        self.area = add(A(self.W, ("tp",)), A(self.W, ("glob", "rseq_offset")))
        self.csoff = 8 + (4 if arch.big and arch.w == 32 else 0)
        self.hook = None; self.steps = 0; self.cur = None; self.loops = []
        self.headers = {}
        for s, items in prog.sec.items():
            for idx, it in enumerate(items):
                if not isinstance(it, Insn): continue
                if re.match(r"(lea|la$|dla|la\.|adr|larl|lis|ori|addi$|add$|call|bl$|jal$)", it.mn): continue
                for o in it.ops:
                    if re.match(r"^\d+[bf]$|^[.A-Za-z_]\w+$", o):
                        l = prog.resolve(o, prog.order[it.loc])
                        if l and l[0] == s and l[1] <= idx: self.headers[l] = max(self.headers.get(l, 0), idx)
        self.dec = getattr(self, "d_" + arch.fam)
    def err(self, insn, why=""): raise Unknown("%s: %s %s" % (self.arch.name, insn.text, why))
    # ---- state
    def initial(self, mem):
        st = State()
        st.regs = {}; st.ops = {i: o.t for i, o in enumerate(self.ops) if o.kind == "reg"}; st.mem = dict(mem); st.flags = None; st.L = {}; st.ev = []
        st.armed = None; st.stack = []; st.ns = 0; st.written = set(); st.wops = set(); st.flagw = False; st.trace = []
        return st
    def rd(self, st, r, w=None):
        t = st.regs.get(r)
        if t is None: t = A(self.W, ("init", r))
        return t if w is None or w == self.W else trunc(w, t)
    def wr(self, st, r, v, w=None, mode="zx"):
        """write register: 32-bit writes zero-extend (or mode), narrower ones insert"""
        st.written.add(r)
        if w is not None and w != self.W:
            if w == 32: v = ext(mode, self.W, v)
            else: v = A(self.W, ("ins", self.W, w, self.rd(st, r), v))
        if v.w != self.W: raise Unknown("register width")
        st.regs[r] = v
    def rdop(self, st, n, w=None):
        t = st.ops[n]
        return t if w is None or w == self.W else trunc(w, t)
    def wrop(self, st, n, v, w=None, mode="zx"):
        st.wops.add(n)
        if w is not None and w != self.W:
            if w == 32: v = ext(mode, self.W, v)
            else: v = A(self.W, ("ins", self.W, w, st.ops[n], v))
        st.ops[n] = v
    def where(self, addr):
        d = sub(addr, self.area)
        if not d.m: return ("area", sg(d.c, self.W))
        ats = [a for a, k in addr.m if a[0] == "alloca" or (a[0] == "init" and a[1] in ("rsp", "sp", "r1", "r15", "x2", "r3", "$29", "r29") and self.isp(a[1]))]
        if ats:
            if len(addr.m) == 1 and addr.m[0][1] == 1: return ("local", ats[0], sg(addr.c, self.W))
            raise Unknown("indexed local memory")
        return ("caller",)
    def isp(self, r): return r == {"x86": "rsp", "arm": "r13", "aarch64": "sp", "ppc": "r1", "mips": "$29", "s390": "r15", "riscv": "x2", "loongarch": "r3"}[self.arch.fam]
    def load(self, st, addr, w):
        k = self.where(addr)
        if k[0] == "area": return A(w, ("load", w, addr, "in" if st.armed else "pre"))
        if k[0] == "local":
            v = st.mem.get(k[1:])
            if v is not None and v.w == w: return v
            if v is not None and v.w > w and not self.arch.big: return trunc(w, v)
            return A(w, ("undef", k[1:], w))
        v = A(w, ("load", w, addr, st.ns))
        st.ev.append(("load", addr, w, self.cur))
        return v
    def store(self, st, addr, w, val, insn, rel=False):
        if val.w != w: val = trunc(w, val)
        k = self.where(addr)
        if k[0] == "local":
            if k[1][0] == "init": st.ev.append(("stack", insn))
            st.mem[k[1:]] = val; return
        if k[0] == "area":
            if k[1] == self.csoff and w == self.W:
                a = single(val)
                st.ev.append(("arm", val, insn, st.armed is not None))
                st.armed = (val, insn) if isc(val) != 0 else None
                return
            st.ev.append(("areastore", k[1], w, val, insn)); return
        st.ev.append(("store", addr, w, val, insn, rel, dict(st.L), st.armed is not None)); st.ns += 1
    def bar(self, st, full): st.ev.append(("bar", full))
    def setflags(self, st, a, b): st.flags = (a, b); st.flagw = True
    # ---- operands
    def parse(self, s, insn):
        """-> ("imm",int) ("reg",name,w) ("op",n,w) Mem Lab"""
        m = re.match(r'^"?\$\{(\d+):l\}"?$', s)
        if m: return Lab(lbl=int(m.group(1)))
        m = re.match(r"^\$\{(\d+):(\w)\}$", s) or re.match(r"^\$(\d+)$", s)
        if m:
            n = int(m.group(1)); o = self.ops[n] if n < len(self.ops) else None
            if o is None: raise Unknown("operand " + s)
            if o.kind == "mem": return Mem(o.t)
            if o.kind == "label": return Lab(lbl=n)
            w = None
            if m.lastindex == 2:
                md = m.group(2)
                w = {"w": 32 if self.arch.fam == "aarch64" else 16, "x": 64, "k": 32, "b": 8, "q": 64}.get(md)
            return ("op", n, w)
        l = self.p.resolve(s, self.p.order[insn.loc]) if re.match(r"^(\d+[bf]|[.A-Za-z_]\w*)$", s) else None
        if l: return Lab(loc=l)
        return None
    # ================================================================ x86
    def x_reg(self, s):
        r = X86.get(s.lstrip("%"))
        return r
    def x_val(self, st, s, insn):
        """component of an address"""
        if s.startswith("%"):
            r = self.x_reg(s)
            if not r or r[1] != self.W: self.err(insn, "address register")
            return self.rd(st, r[0])
        o = self.parse(s, insn)
        if isinstance(o, tuple) and o[0] == "op" and o[2] in (None, self.W): return self.rdop(st, o[1])
        self.err(insn, "address")
    def x_mem(self, st, s, insn):
        seg = None
        m = re.match(r"^%(fs|gs):(.*)$", s)
        if m: seg, s = m.group(1), m.group(2)
        m = re.match(r"^(.*?)\(([^()]*)\)$", s)
        if not m or not m.group(2).strip().startswith(("%", "$", ",")):
            o = self.parse(s, insn)
            if isinstance(o, Mem) and not seg: return o.addr
            if seg:
                return add(self.segbase(seg, insn), self.p.expr(s, self.p.order[insn.loc], self.W))
            return None
        disp, inner = m.group(1).strip(), m.group(2)
        parts = [x.strip() for x in inner.split(",")]
        if parts[0] == "%rip": return self.p.expr(disp, self.p.order[insn.loc], self.W)
        t = K(self.W, 0)
        if disp:
            if "$" in disp.replace("$$", ""): self.err(insn, "displacement")
            t = self.p.expr(disp, self.p.order[insn.loc], self.W)
        if parts[0]: t = add(t, self.x_val(st, parts[0], insn))
        if len(parts) > 1 and parts[1]: t = add(t, mulc(self.x_val(st, parts[1], insn), int(parts[2]) if len(parts) > 2 else 1))
        if seg: t = add(t, self.segbase(seg, insn))
        return t
    def segbase(self, seg, insn):
        if seg == ("fs" if self.W == 64 else "gs"): return A(self.W, ("tp",))
        return A(self.W, ("seg", seg))
    def x_get(self, st, s, w, insn):
        if s.startswith("$$"):
            return K(w, int(s[2:], 0)) if re.match(r"^-?(0x)?[0-9a-fA-F]+$", s[2:]) else self.p.expr(s[2:], self.p.order[insn.loc], w)
        if s.startswith("%") and ":" not in s:
            r = self.x_reg(s)
            if not r: self.err(insn, "register " + s)
            if r[1] == -8: return A(8, ("hi8", self.rd(st, r[0])))
            return self.rd(st, r[0], w)
        a = self.x_mem(st, s, insn)
        if a is not None: return self.load(st, a, w)
        o = self.parse(s, insn)
        if isinstance(o, tuple): return self.rdop(st, o[1], w)
        self.err(insn, "operand " + s)
    def x_put(self, st, s, w, v, insn):
        if s.startswith("%") and ":" not in s:
            r = self.x_reg(s)
            if not r or r[1] == -8: self.err(insn, "register " + s)
            if self.isp(r[0]): st.ev.append(("stack", insn))
            return self.wr(st, r[0], v, w)
        a = self.x_mem(st, s, insn)
        if a is not None: return self.store(st, a, w, v, insn)
        o = self.parse(s, insn)
        if isinstance(o, tuple): return self.wrop(st, o[1], v, w)
        self.err(insn, "operand " + s)
    def x_width(self, insn, mn, bases):
        if mn in bases:
            for s in reversed(insn.ops):
                if s.startswith("%") and ":" not in s:
                    r = self.x_reg(s)
                    if r: return mn, abs(r[1])
                o = self.parse(s, insn)
                if isinstance(o, tuple):
                    return mn, o[2] or self.ops[o[1]].bits
            return None
        if mn[:-1] in bases and mn[-1] in "bwlq": return mn[:-1], {"b": 8, "w": 16, "l": 32, "q": 64}[mn[-1]]
        return None
    def d_x86(self, st, insn):
        mn, ops = insn.mn, insn.ops
        if mn in ("nop", "endbr64", "pause"): return None
        if mn in ("lock", "rep") and ops:
            x = Insn(insn.text); w = " ".join([",".join(ops)]).split(None, 1); x.mn = w[0]; x.ops = splitops(w[1]) if len(w) > 1 else []; x.loc = insn.loc; x.lock = mn
            return self.d_x86(st, x)
        if insn.lock == "rep" or mn in ("repmovsb",):
            if mn != "movsb": self.err(insn)
            d, s, n = self.rd(st, "rdi"), self.rd(st, "rsi"), self.rd(st, "rcx")
            st.ev.append(("copy", d, s, n, insn, dict(st.L), st.armed is not None, False)); st.ns += 1
            self.wr(st, "rdi", add(d, n)); self.wr(st, "rsi", add(s, n)); self.wr(st, "rcx", K(self.W, 0)); return None
        if mn in ("mfence",): self.bar(st, "full"); return None
        if mn in ("lfence", "sfence"): self.bar(st, "part"); return None
        if mn in ("jmp",): return ("jmp", self.target(ops[0], insn))
        if mn[0] == "j":
            return self.cond(st, {"e": "eq", "z": "eq", "ne": "ne", "nz": "ne"}.get(mn[1:], mn[1:]), self.target(ops[0], insn), insn)
        if mn in ("call", "callq", "calll"):
            t = self.parse(ops[0], insn)
            if not isinstance(t, Lab) or t.loc is None: st.ev.append(("trap", insn)); return ("stop",)
            if st.armed or self.W == 64: st.ev.append(("trap", insn))
            r = A(self.W, ("sym", insn.loc[0], insn.loc[1] + 1))
            sp = sub(self.rd(st, "rsp"), K(self.W, self.W // 8)); st.regs["rsp"] = sp
            st.mem[(("init", "rsp"), sg(sp.c, self.W))] = r
            return ("jmp", t)
        if mn in ("ret", "retq", "retl"):
            sp = self.rd(st, "rsp"); v = st.mem.get((("init", "rsp"), sg(sp.c, self.W)))
            a = single(v) if v is not None else None
            if a is None or a[0] != "sym": st.ev.append(("trap", insn)); return ("stop",)
            if st.armed: st.ev.append(("trap", insn))
            st.regs["rsp"] = add(sp, K(self.W, self.W // 8))
            return ("jmp", Lab(loc=a[1:]))
        if mn.rstrip("lqw") in ("push", "pop", "pushf", "popf") or mn in ("syscall", "int", "int3", "ud2", "ud1", "hlt", "sysenter"):
            st.ev.append(("trap", insn))
            if mn.startswith("pop") and ops: self.x_put(st, ops[0], self.W, A(self.W, ("undef", insn.text)), insn)
            return ("stop",) if mn in ("ud2", "ud1", "hlt") else None
        wi = self.x_width(insn, mn, {"mov", "add", "sub", "cmp", "test", "inc", "dec", "lea", "xor", "and", "or", "neg", "not", "xchg", "xadd", "movabs", "cmpxchg"})
        mx = re.match(r"^mov([sz])(b|w|l)(w|l|q)$", mn) or re.match(r"^mov([sz])([bw])$", mn)
        if mx:
            w1 = {"b": 8, "w": 16, "l": 32}[mx.group(2)]
            if mx.lastindex == 3: w2 = {"w": 16, "l": 32, "q": 64}[mx.group(3)]
            else:
                r = self.x_reg(ops[1]); w2 = r[1] if r else self.W
            self.x_put(st, ops[1], w2, ext("sx" if mx.group(1) == "s" else "zx", w2, self.x_get(st, ops[0], w1, insn)), insn); return None
        if not wi: self.err(insn)
        b, w = wi
        if b == "mov" or b == "movabs": self.x_put(st, ops[1], w, self.x_get(st, ops[0], w, insn), insn); return None
        if b == "lea":
            a = self.x_mem(st, ops[0], insn)
            if a is None: self.err(insn)
            self.x_put(st, ops[1], w, trunc(w, a), insn); return None
        if b == "cmp":
            y = self.x_get(st, ops[0], w, insn); x = self.x_get(st, ops[1], w, insn); self.setflags(st, x, y); return None
        if b == "test":
            x, y = self.x_get(st, ops[0], w, insn), self.x_get(st, ops[1], w, insn)
            if x == y: self.setflags(st, x, K(w, 0))
            else: self.setflags(st, A(w, ("and", x, y)), K(w, 0))
            return None
        if b in ("inc", "dec", "neg", "not"):
            x = self.x_get(st, ops[0], w, insn)
            v = add(x, K(w, 1 if b == "inc" else -1)) if b in ("inc", "dec") else mulc(x, -1) if b == "neg" else sub(mulc(x, -1), K(w, 1))
            self.x_put(st, ops[0], w, v, insn)
            if b != "not": self.setflags(st, v, K(w, 0))
            return None
        if b in ("add", "sub", "xor", "and", "or"):
            y = self.x_get(st, ops[0], w, insn)
            if insn.lock == "lock": self.bar(st, "full")
            x = self.x_get(st, ops[1], w, insn)
            if b == "add": v = add(x, y)
            elif b == "sub": v = sub(x, y)
            elif b == "xor" and x == y: v = K(w, 0)
            elif b in ("and", "or") and x == y: v = x
            else: v = A(w, (b, x, y))
            if insn.lock == "lock" and v == x:
                a = self.x_mem(st, ops[1], insn)
                if a is not None and self.where(a)[0] == "local": self.setflags(st, v, K(w, 0)); return None
            self.x_put(st, ops[1], w, v, insn); self.setflags(st, v, K(w, 0)); return None
        if b in ("xchg",):
            x, y = self.x_get(st, ops[0], w, insn), self.x_get(st, ops[1], w, insn)
            if self.x_mem(st, ops[0], insn) is not None or self.x_mem(st, ops[1], insn) is not None: self.bar(st, "full")
            self.x_put(st, ops[0], w, y, insn); self.x_put(st, ops[1], w, x, insn); return None
        self.err(insn)
    # ================================================================ generic helpers
    def target(self, s, insn):
        o = self.parse(s, insn)
        if isinstance(o, Lab): return o
        self.err(insn, "target")
    def cond(self, st, c, tgt, insn):
        if st.flags is None: raise Wrong("'%s' branches on flags that no instruction before it has set" % insn.text)
        if st.flags == "unk": self.err(insn, "flags")
        a, b = st.flags
        return self.br(c, a, b, tgt)
    def br(self, c, a, b, tgt):
        if c in ("eq", "ne"):
            l = eqlit(a, b)
            return ("br", l, tgt, c == "ne")
        return ("br", ("cc", c, a, b), tgt, False)
    def gname(self, s):
        f = self.arch.fam; s = s.strip()
        if f in ("arm",):
            s = s.lstrip("%").lower(); s = {"sp": "r13", "lr": "r14", "pc": "r15", "ip": "r12", "fp": "r11"}.get(s, s)
            return (s, 32) if re.match(r"^r\d+$", s) else None
        if f == "aarch64":
            m = re.match(r"^([xw])(\d+)$", s)
            if m: return ("x" + m.group(2), 64 if m.group(1) == "x" else 32)
            if s in ("xzr", "wzr"): return ("zr", 64 if s[0] == "x" else 32)
            return ("sp", 64) if s == "sp" else None
        if f == "ppc":
            m = re.match(r"^%?r(\d+)$", s)
            return ("r" + m.group(1), self.W) if m else None
        if f == "s390":
            m = re.match(r"^%r(\d+)$", s)
            return ("r" + m.group(1), self.W) if m else None
        if f == "mips":
            m = re.match(r"^\$\$(\d+)$", s)
            if m: return ("$" + m.group(1), self.W)
            return ("$0", self.W) if s in ("$$zero",) else None
        if f == "loongarch":
            m = re.match(r"^\$\$r(\d+)$", s)
            if m: return ("r" + m.group(1), self.W)
            al = {"zero": "r0", "ra": "r1", "tp": "r2", "sp": "r3"}
            for i in range(8): al["a%d" % i] = "r%d" % (4 + i)
            for i in range(9): al["t%d" % i] = "r%d" % (12 + i)
            s2 = s.replace("$$", "")
            return (al[s2], self.W) if s2 in al else None
        if f == "riscv":
            if re.match(r"^x\d+$", s): return (s, self.W)
            return (RV[s], self.W) if s in RV else None
    def zero(self, n): return n in ("zr",) or (self.arch.fam in ("mips",) and n == "$0") or (self.arch.fam == "riscv" and n == "x0") or (self.arch.fam == "loongarch" and n == "r0")
    def get(self, st, s, insn, w=None):
        """register or operand value"""
        g = self.gname(s)
        if g:
            if self.zero(g[0]): return K(w or g[1], 0)
            return self.rd(st, g[0], w or g[1])
        o = self.parse(s, insn)
        if isinstance(o, tuple) and o[0] == "op": return self.rdop(st, o[1], w or o[2])
        m = re.match(r"^#?(-?(?:0x[0-9a-fA-F]+|\d+))$", s)
        if m: return K(w or self.W, int(m.group(1), 0))
        self.err(insn, "operand " + s)
    def put(self, st, s, v, insn, w=None, mode="zx"):
        g = self.gname(s)
        if g:
            if self.zero(g[0]): return
            if self.isp(g[0]): st.ev.append(("stack", insn))
            ww = w or g[1]
            return self.wr(st, g[0], v if v.w == self.W else ext(mode, self.W, v))
        o = self.parse(s, insn)
        if isinstance(o, tuple) and o[0] == "op":
            return self.wrop(st, o[1], v if v.w == self.W else ext(mode, self.W, v))
        self.err(insn, "destination " + s)
    def wof(self, s, insn):
        g = self.gname(s)
        if g: return g[1]
        o = self.parse(s, insn)
        if isinstance(o, tuple): return o[2] or self.W
        return self.W
    def addr(self, st, ops, insn):
        """address from one operand ("m" operand, off(base), [base, off]) or base, offset operands"""
        s = ops[0]
        o = self.parse(s, insn)
        if len(ops) == 1:
            if isinstance(o, Mem): return o.addr
            m = re.match(r"^(.*?)\((.*)\)$", s)
            if m and (self.gname(m.group(2)) or re.match(r"^\$(\d+|\{)", m.group(2))):
                off = K(self.W, int(m.group(1), 0)) if m.group(1).strip() else K(self.W, 0)
                return add(off, self.get(st, m.group(2), insn))
            m = re.match(r"^\[(.*)\]$", s)
            if m:
                ps = splitops(m.group(1)); t = self.get(st, ps[0], insn)
                for x in ps[1:]:
                    if re.match(r"^(lsl|uxtw|sxtw)", x): self.err(insn, "address")
                    t = add(t, self.get(st, x, insn))
                return t
            self.err(insn, "address")
        t = self.get(st, ops[0], insn)
        for x in ops[1:]: t = add(t, self.get(st, x, insn))
        return t
    def sym(self, s, insn):
        l = self.p.resolve(s.strip("() "), self.p.order[insn.loc])
        if l is None: self.err(insn, "symbol " + s)
        return A(self.W, ("sym",) + l)
    def trapop(self, st, insn):
        st.ev.append(("trap", insn)); return None
    # ================================================================ arm
    def d_arm(self, st, insn):
        mn, o = insn.mn.lower(), insn.ops
        if mn == "nop": return None
        if mn == "adr": self.put(st, o[0], self.sym(o[1], insn), insn); return None
        if mn in ("dmb", "dsb"): self.bar(st, "full" if not o or o[0] in ("ish", "sy", "#15", "#11") else "part"); return None
        if mn in ("b", "beq", "bne", "bgt", "blt", "bge", "ble", "bhi", "blo", "bcs", "bcc"):
            t = self.target(o[0], insn)
            return ("jmp", t) if mn == "b" else self.cond(st, mn[1:], t, insn)
        if mn in ("bl", "blx", "bx", "push", "pop", "svc", "udf", "stmdb", "ldmia", "stmfd", "ldmfd"): return self.trapop(st, insn)
        if mn in ("ldr", "ldrb", "ldrh"):
            w = {"ldr": 32, "ldrb": 8, "ldrh": 16}[mn]
            self.put(st, o[0], ext("zx", 32, self.load(st, self.addr(st, o[1:2], insn), w)), insn)
            if len(o) > 2: self.postidx(st, o, insn)
            return None
        if mn in ("str", "strb", "strh"):
            w = {"str": 32, "strb": 8, "strh": 16}[mn]
            self.store(st, self.addr(st, o[1:2], insn), w, trunc(w, self.get(st, o[0], insn)), insn)
            if len(o) > 2: self.postidx(st, o, insn)
            return None
        if mn in ("cmp",): self.setflags(st, self.get(st, o[0], insn), self.get(st, o[1], insn)); return None
        if mn in ("tst",) and o[0] == o[1]: self.setflags(st, self.get(st, o[0], insn), K(32, 0)); return None
        if mn in ("add", "adds", "sub", "subs"):
            a, b = (o[0], o[1]) if len(o) == 2 else (o[1], o[2])
            v = add(self.get(st, a, insn), self.get(st, b, insn), 1 if mn[0] == "a" else -1)
            self.put(st, o[0], v, insn)
            if mn[-1] == "s": self.setflags(st, v, K(32, 0))
            return None
        if mn in ("mov", "movs"):
            v = self.get(st, o[1], insn); self.put(st, o[0], v, insn)
            if mn == "movs": self.setflags(st, v, K(32, 0))
            return None
        self.err(insn)
    def postidx(self, st, o, insn):
        b = o[1].strip("[]").strip(); self.put(st, b, add(self.get(st, b, insn), self.get(st, o[2], insn)), insn)
    # ================================================================ aarch64
    def d_aarch64(self, st, insn):
        mn, o = insn.mn.lower(), insn.ops
        if mn == "nop": return None
        if mn == "adrp":
            l = self.sym(o[1], insn); self.put(st, o[0], A(64, ("pg", l)), insn); return None
        if mn == "adr": self.put(st, o[0], self.sym(o[1], insn), insn); return None
        if mn == "add" and len(o) == 3 and o[2].startswith(":lo12:"):
            l = self.sym(o[2][6:], insn); v = self.get(st, o[1], insn)
            if v == A(64, ("pg", l)): v = l
            else: v = add(v, A(64, ("lo12", l)))
            self.put(st, o[0], v, insn); return None
        if mn in ("dmb", "dsb"): self.bar(st, "full" if o and o[0] in ("ish", "sy") else "part"); return None
        if mn in ("b", "b.eq", "b.ne", "beq", "bne") or mn.startswith("b."):
            t = self.target(o[0], insn)
            return ("jmp", t) if mn == "b" else self.cond(st, mn.replace(".", "")[1:], t, insn)
        if mn in ("cbz", "cbnz"):
            w = self.wof(o[0], insn); return self.br("eq" if mn == "cbz" else "ne", self.get(st, o[0], insn, w), K(w, 0), self.target(o[1], insn))
        if mn in ("bl", "blr", "br", "ret", "svc", "brk", "hlt"): return self.trapop(st, insn)
        if mn in ("ldr", "ldrb", "ldur", "ldar", "ldrh"):
            w = {"ldrb": 8, "ldrh": 16}.get(mn, self.wof(o[0], insn))
            self.put(st, o[0], ext("zx", 64, self.load(st, self.addr(st, o[1:2], insn), w)), insn)
            if len(o) > 2: self.postidx(st, o, insn)
            return None
        if mn in ("str", "strb", "stur", "stlr", "strh", "stlrb"):
            w = {"strb": 8, "strh": 16, "stlrb": 8}.get(mn, self.wof(o[0], insn))
            self.store(st, self.addr(st, o[1:2], insn), w, trunc(w, self.get(st, o[0], insn, max(w, self.wof(o[0], insn)))), insn, rel=mn.startswith("stl"))
            if len(o) > 2: self.postidx(st, o, insn)
            return None
        if mn in ("cmp",):
            w = self.wof(o[0], insn); self.setflags(st, self.get(st, o[0], insn, w), self.get(st, o[1], insn, w)); return None
        if mn in ("add", "adds", "sub", "subs"):
            w = self.wof(o[0], insn); v = add(self.get(st, o[1], insn, w), self.get(st, o[2], insn, w), 1 if mn[0] == "a" else -1)
            self.put(st, o[0], v, insn)
            if mn[-1] == "s": self.setflags(st, v, K(w, 0))
            return None
        if mn == "mov":
            w = self.wof(o[0], insn); self.put(st, o[0], self.get(st, o[1], insn, w), insn); return None
        self.err(insn)
    # ================================================================ ppc
    def d_ppc(self, st, insn):
        mn = re.sub(r"\$\{\d+:[UX]\}", "", insn.mn).lower(); o = list(insn.ops)
        if mn == "nop": return None
        if mn in ("lwsync", "sync", "hwsync"): self.bar(st, "full"); return None
        if mn in ("eieio", "isync"): self.bar(st, "part"); return None
        m = re.match(r"^\(?([^()@]+)\)?@(\w+)$", o[-1]) if o else None
        if m:
            l = self.sym(m.group(1), insn); part = m.group(2); W = self.W
            if mn == "lis": v = A(W, ("pp", part, l))
            else:
                cur = self.get(st, o[1], insn); a = single(cur)
                chain = {("ori", "higher", "highest"): "up", ("oris", "high", "sh"): "hi2", ("oris", "h", "sh"): "hi2", ("ori", "l", "hi2"): None, ("addi", "l", "ha"): None, ("ori", "l", "h"): None}
                k = (mn, part, a[1] if a is not None and a[0] == "pp" else None)
                if k not in chain or a[2] != l: v = A(W, ("badaddr", insn.text))
                else: v = l if chain[k] is None else A(W, ("pp", chain[k], l))
            self.put(st, o[0], v, insn); return None
        if mn == "rldicr":
            a = single(self.get(st, o[1], insn))
            v = A(self.W, ("pp", "sh", a[2])) if a is not None and a[0] == "pp" and a[1] == "up" and o[2:] == ["32", "31"] else A(self.W, ("badaddr", insn.text))
            self.put(st, o[0], v, insn); return None
        if mn in ("b",): return ("jmp", self.target(o[0], insn))
        m = re.match(r"^b(eq|ne|lt|gt|le|ge)([-+]?)$", mn)
        if m:
            cr = "cr0"
            if len(o) == 2: cr = o[0]
            if st.flags == "unk": self.err(insn, "flags")
            f = (st.flags or {}).get(cr)
            if f is None: raise Wrong("'%s' branches on a condition field that no instruction before it has set" % insn.text)
            return self.br(m.group(1), f[0], f[1], self.target(o[-1], insn))
        m = re.match(r"^cmpl?([wd])(i?)$", mn)
        if m:
            w = 32 if m.group(1) == "w" else 64
            cr = "cr0"
            if len(o) == 3: cr = o.pop(0)
            if not cr.startswith("cr"): cr = "cr" + cr
            f = dict(st.flags if isinstance(st.flags, dict) else {}); f[cr] = (self.get(st, o[0], insn, w), self.get(st, o[1], insn, w)); st.flags = f; st.flagw = (st.flagw or frozenset()) | {cr}
            return None
        if mn in ("bl", "blr", "bctr", "bctrl", "sc", "trap", "tw"): return self.trapop(st, insn)
        m = re.match(r"^(l|st)([bhwd])(z?)(u?)(x?)$", mn)
        if m:
            w = {"b": 8, "h": 16, "w": 32, "d": 64}[m.group(2)]
            if m.group(5): a = add(self.get(st, o[1], insn), self.get(st, o[2], insn)); base = o[1]
            else:
                a = self.addr(st, o[1:2], insn); mm = re.match(r"^.*\((.*)\)$", o[1]); base = mm.group(1) if mm else None
            if m.group(1) == "l": v = ext("zx", self.W, self.load(st, a, w))
            else: self.store(st, a, w, trunc(w, self.get(st, o[0], insn)), insn)
            if m.group(4):
                if base is None: self.err(insn, "update form")
                self.put(st, base, a, insn)
            if m.group(1) == "l": self.put(st, o[0], v, insn)
            return None
        if mn in ("mr",): self.put(st, o[0], self.get(st, o[1], insn), insn); return None
        if mn in ("li",): self.put(st, o[0], K(self.W, int(o[1], 0)), insn); return None
        if mn in ("add", "addi", "subi"):
            self.put(st, o[0], add(self.get(st, o[1], insn), self.get(st, o[2], insn), -1 if mn == "subi" else 1), insn); return None
        if mn in ("subf", "sub"):
            a, b = self.get(st, o[1], insn), self.get(st, o[2], insn)
            self.put(st, o[0], sub(b, a) if mn == "subf" else sub(a, b), insn); return None
        self.err(insn)
    # ================================================================ mips, riscv, loongarch
    def d_mips(self, st, insn): return self.risc(st, insn, insn.mn.lower(), {"la": 1, "dla": 1}, {"sync"})
    def d_riscv(self, st, insn): return self.risc(st, insn, insn.mn.lower(), {"la": 1, "lla": 1}, {"fence"})
    def d_loongarch(self, st, insn): return self.risc(st, insn, insn.mn.lower(), {"la.local": 1, "la.pcrel": 1, "la": 1}, {"dbar"})
    def risc(self, st, insn, mn, las, bars):
        o = insn.ops; W = self.W
        if mn == "nop": return None
        if mn in las: self.put(st, o[0], self.sym(o[1], insn), insn); return None
        if mn in bars:
            if mn == "sync": full = not o or o[0] in ("0", "0x0", "0x12", "18", "16", "0x10")
            elif mn == "fence":
                p = o if o else ["rw", "rw"]
                p = [re.sub("[io]", "", x) for x in p]
                full = len(p) == 2 and set("rw") <= set(p[0]) and "w" in p[1]
                if full and set("rw") <= set(p[1]): full = "full"
            else: full = int(o[0], 0) in (0, 0x10, 0x12, 2)
            self.bar(st, "full" if full else "part"); return None
        if mn in ("b", "j"): return ("jmp", self.target(o[0], insn))
        if mn in ("beqz", "bnez"): return self.br("eq" if mn[1] == "e" else "ne", self.get(st, o[0], insn), K(W, 0), self.target(o[1], insn))
        if mn in ("beq", "bne"): return self.br(mn[1:], self.get(st, o[0], insn), self.get(st, o[1], insn), self.target(o[2], insn))
        if mn in ("blt", "bge", "bltu", "bgeu", "bgt", "ble"): return ("br", ("cc", mn, self.get(st, o[0], insn), self.get(st, o[1], insn)), self.target(o[2], insn), False)
        if mn in ("jal", "jalr", "jr", "bl", "syscall", "ecall", "ebreak", "break", "call", "ret", "jirl"): return self.trapop(st, insn)
        ld = {"lw": (32, "sx"), "lwu": (32, "zx"), "ld": (64, "zx"), "lb": (8, "sx"), "lbu": (8, "zx"), "lh": (16, "sx"), "lhu": (16, "zx"),
            "ld.d": (64, "zx"), "ld.w": (32, "sx"), "ld.wu": (32, "zx"), "ld.b": (8, "sx"), "ld.bu": (8, "zx"), "ldptr.d": (64, "zx"), "ldptr.w": (32, "sx"), "ldx.b": (8, "sx"), "ldx.bu": (8, "zx")}
        sd = {"sw": 32, "sd": 64, "sb": 8, "sh": 16, "st.d": 64, "st.w": 32, "st.b": 8, "st.h": 16, "stptr.d": 64, "stptr.w": 32, "stx.b": 8}
        if mn in ld:
            w, e = ld[mn]
            if w > W: self.err(insn)
            self.put(st, o[0], ext(e, W, self.load(st, self.addr(st, o[1:], insn), w)), insn); return None
        if mn in sd: self.store(st, self.addr(st, o[1:], insn), sd[mn], trunc(sd[mn], self.get(st, o[0], insn)), insn); return None
        m = re.match(r"^(d?addi?u?|add\.[dw]|addi\.[dw]|addi?w?|d?subu?|sub\.[dw]|sub|subw)$", mn)
        if m:
            a, b = (o[0], o[1]) if len(o) == 2 else (o[1], o[2])
            s = -1 if "sub" in mn else 1
            narrow = W == 64 and (mn in ("addu", "addiu", "subu", "addw", "addiw", "subw", "add.w", "addi.w", "sub.w") or (self.arch.fam == "mips" and not mn.startswith("d")))
            w = 32 if narrow else W
            self.put(st, o[0], add(self.get(st, a, insn, w), self.get(st, b, insn, w), s), insn, mode="sx"); return None
        if mn in ("mv", "move", "or") and (len(o) == 2 or o[2] in ("zero", "$$zero", "$$r0", "$$0")): self.put(st, o[0], self.get(st, o[1], insn), insn); return None
        if mn in ("li",): self.put(st, o[0], self.get(st, o[1], insn), insn); return None
        self.err(insn)
    # ================================================================ s390
    def d_s390(self, st, insn):
        mn, o = insn.mn.lower(), insn.ops; W = self.W
        if mn in ("nop", "nopr"): return None
        if mn == "larl": self.put(st, o[0], self.sym(o[1], insn), insn); return None
        if mn in ("bcr", "br"):
            if mn == "bcr" and o and o[0] in ("15", "14") and o[1] in ("0", "%r0"): self.bar(st, "full"); return None
            return self.trapop(st, insn)
        if mn in ("j", "jg", "brcl", "brc"):
            if mn.startswith("br"): self.err(insn)
            return ("jmp", self.target(o[0], insn))
        m = re.match(r"^jg?(nz|z|ne|e|h|l|nh|nl|he|le)$", mn)
        if m: return self.cond(st, {"nz": "ne", "z": "eq", "e": "eq", "ne": "ne"}.get(m.group(1), m.group(1)), self.target(o[0], insn), insn)
        if mn in ("brasl", "basr", "svc", "brctg"): return self.trapop(st, insn)
        if mn in ("stg", "st", "sty", "stc", "sth"):
            w = {"stg": 64, "stc": 8, "sth": 16}.get(mn, 32); self.store(st, self.addr(st, o[1:], insn), w, trunc(w, self.get(st, o[0], insn)), insn); return None
        if mn in ("lg",): self.put(st, o[0], self.load(st, self.addr(st, o[1:], insn), 64), insn); return None
        if mn in ("l", "ly", "ic"):
            w = 8 if mn == "ic" else 32; v = self.load(st, self.addr(st, o[1:], insn), w)
            self.put(st, o[0], A(W, ("ins", W, w, self.get(st, o[0], insn), v)), insn); return None
        if mn in ("llgc", "lgf", "llgf"):
            w = 8 if mn == "llgc" else 32; self.put(st, o[0], ext("sx" if mn == "lgf" else "zx", W, self.load(st, self.addr(st, o[1:], insn), w)), insn); return None
        if mn in ("c", "cy", "cg", "cl", "clg"):
            w = 64 if mn in ("cg", "clg") else 32
            self.setflags(st, self.get(st, o[0], insn, w), self.load(st, self.addr(st, o[1:], insn), w)); return None
        if mn in ("cr", "cgr", "clr", "clgr"):
            w = 64 if "g" in mn else 32; self.setflags(st, self.get(st, o[0], insn, w), self.get(st, o[1], insn, w)); return None
        if mn in ("cghi", "chi"):
            w = 64 if "g" in mn else 32; self.setflags(st, self.get(st, o[0], insn, w), K(w, int(o[1], 0))); return None
        if mn in ("ltgr",):
            v = self.get(st, o[1], insn); self.put(st, o[0], v, insn); self.setflags(st, v, K(W, 0)); return None
        if mn in ("lgr",): self.put(st, o[0], self.get(st, o[1], insn), insn); return None
        if mn in ("lghi",): self.put(st, o[0], K(W, int(o[1], 0)), insn); return None
        if mn in ("agr", "sgr", "aghi"):
            b = K(W, int(o[1], 0)) if mn == "aghi" else self.get(st, o[1], insn)
            v = add(self.get(st, o[0], insn), b, -1 if mn == "sgr" else 1); self.put(st, o[0], v, insn); self.setflags(st, v, K(W, 0)); return None
        if mn in ("ag", "sg"):
            v = add(self.get(st, o[0], insn), self.load(st, self.addr(st, o[1:], insn), W), 1 if mn == "ag" else -1); self.put(st, o[0], v, insn); self.setflags(st, v, K(W, 0)); return None
        if mn in ("agsi",):
            a = self.addr(st, o[:1], insn); v = add(self.load(st, a, W), K(W, int(o[1], 0))); self.store(st, a, W, v, insn); self.setflags(st, v, K(W, 0)); return None
        self.err(insn)
    # ================================================================ exploration
    def explore(self, loc, st, region=None, inloop=None):
        """all ways from loc: list of (kind, where, state); kind: fall, label, back (to region header), leave (region), stop"""
        out = []; work = [(loc, st)]
        while work:
            loc, st = work.pop()
            while True:
                self.steps += 1
                if self.steps > 20000 or len(st.ev) > 400: raise Unknown("too many steps")
                if region is not None and not (loc[0] == region[0][0] and region[0][1] <= loc[1] <= region[1]):
                    out.append(("leave", loc, st)); break
                if region is not None and loc == region[0] and st.trace and st.trace[-1] == "moved": out.append(("back", loc, st)); break
                if loc in self.headers and (region is None or loc != region[0]):
                    for l2, s2 in self.loop(loc, st): work.append((l2, s2))
                    break
                it = self.p.insn(loc)
                if it is None:
                    out.append(("fall" if loc[0] == "" else "runoff", loc, st)); break
                if self.hook: self.hook(loc, st)
                if isinstance(it, Data): out.append(("data", loc, st)); break
                st.trace = ["moved"]; self.cur = loc
                r = self.dec(st, it)
                nxt = (loc[0], loc[1] + 1)
                if r is None: loc = nxt; continue
                if r[0] == "stop": out.append(("stop", loc, st)); break
                if r[0] == "jmp":
                    if r[1].lbl is not None: st.ev.append(("exit", it)); out.append(("label", r[1].lbl, st)); break
                    st.ev.append(("jump", it, r[1].loc)); loc = r[1].loc; continue
                lit, tgt, neg = r[1], r[2], r[3]
                if lit is True or lit is False: dec = lit
                else: dec = st.L.get(lit)
                taken = None if dec is None else (dec != neg)
                def take(s):
                    s.ev.append(("jump", it, tgt.loc if tgt.loc is not None else ("lbl", tgt.lbl)))
                    if tgt.lbl is not None: out.append(("label", tgt.lbl, s))
                    else: work.append((tgt.loc, s))
                if taken is True: take(st); break
                if taken is None:
                    s2 = st.clone(); s2.L[lit] = not neg; take(s2)
                    st.L[lit] = neg
                loc = nxt
        return out
    def loop(self, h, st0):
        """summarise a copy loop with header h; the states that leave it"""
        end = self.headers[h]; W = self.W
        region = (h, end); self.loops.append(region)
        hook = self.hook; self.hook = None
        s = st0.clone(); s.trace = []
        try: r1 = self.explore(h, s, region)
        finally: self.hook = hook
        back = [x for x in r1 if x[0] == "back"]
        if len(back) != 1: raise Unknown("loop with %d ways back" % len(back))
        s1 = back[0][2]; iv = ("i", h)
        sh = st0.clone(); sh.trace = []; ind = {}
        for nm in ("regs", "ops"):
            a, b = getattr(st0, nm), getattr(s1, nm)
            for k, v in b.items():
                v0 = a.get(k, A(W, ("init", k)) if nm == "regs" else None)
                if v == v0: continue
                d = sub(v, v0)
                if not d.m:
                    ind[(nm, k)] = sg(d.c, W); getattr(sh, nm)[k] = add(v0, T(W, 0, ((iv, d.c),)))
                else: getattr(sh, nm)[k] = A(W, ("unk", k, h))
        if s1.mem != st0.mem: raise Unknown("loop changes local memory")
        sh.flags = "unk"; base = len(st0.ev); ns0 = sh.ns
        r2 = self.explore(h, sh, region)
        back = [x for x in r2 if x[0] == "back"]; leave = [x for x in r2 if x[0] != "back"]
        if len(back) == 1 and not leave: raise Wrong("the loop at '%s' has no way out: the operation never finishes" % self.p.insn(h).text)
        if len(back) != 1 or len(leave) != 1 or leave[0][0] != "leave": raise Unknown("loop with %d exits" % len(leave))
        for (nm, k), d in ind.items():
            if sub(getattr(back[0][2], nm)[k], getattr(sh0(st0, nm, k, W), "v")) != T(W, d, ((iv, d & ((1 << W) - 1)),)): raise Unknown("loop step")
        _, loc, sx = leave[0]
        lits = [(l, v) for l, v in sx.L.items() if l not in st0.L]
        if len(lits) != 1 or lits[0][0][0] != "eq": raise Unknown("loop exit condition")
        if lits[0][1] is not True: raise Wrong("the loop at '%s' is left as soon as %r is not 0 and goes on while it is" % (self.p.insn(h).text, lits[0][0][1]))
        e = lits[0][0][1]
        if e.w != W: raise Unknown("loop exit width")
        k = dict(e.m).get(iv, 0); e0 = sub(e, T(W, 0, ((iv, k),)))
        if sg(k, W) == 1: n = mulc(e0, -1)
        elif sg(k, W) == -1: n = e0
        else: raise Unknown("loop exit step")
        if any(iv == a for a in atoms(n)): raise Unknown("loop exit")
        sb = [x for x in back[0][2].ev[base:] if x[0] not in ("load", "jump")]; sxv = [x for x in sx.ev[base:] if x[0] not in ("load", "jump")]
        if any(x[0] != "store" for x in sb + sxv): raise Unknown("loop effects")
        strip = lambda l: [x[1:4] for x in l]
        if not sb and not sxv:
            fs = sx.clone(); fs.L = dict(st0.L); fs.ev = list(st0.ev)
            for nm in ("regs", "ops"):
                d = getattr(fs, nm)
                for k2 in list(d): d[k2] = subst(d[k2], iv, n)
            fs.flags = "unk"; fs.trace = ["moved"]
            return [(loc, fs)]
        if len(sb) != 1 or (sxv and strip(sxv) != strip(sb)): raise Unknown("loop with %d stores" % len(sb))
        cnt = add(n, K(W, 1)) if sxv else n
        x = sb[0]; addr, w, val = x[1], x[2], x[3]
        a = single(val)
        if a is None or a[0] != "load" or a[1] != w:
            if any(q[0] == "unk" for q in atoms(val)): raise Unknown("loop does not copy")
            raise Wrong("the copy loop stores %r ('%s') instead of the byte it read" % (val, x[4].text))
        src = a[2]
        step = lambda t: sg(dict(t.m).get(iv, 0), W)
        if any(q[0] == "unk" for q in atoms(addr) | atoms(src)): raise Unknown("loop step")
        if step(addr) != step(src) or abs(step(addr)) != w // 8: raise Wrong("the copy loop advances by %d in the destination and %d in the source for each %d-byte copy" % (step(addr), step(src), w // 8))
        z = lambda t, v: subst(t, iv, v)
        first = K(W, 0) if step(addr) > 0 else sub(cnt, K(W, 1))
        # bottom-tested: the body runs at least once
        wrap = False
        if sxv:
            l = eqlit(cnt, K(W, 0))
            wrap = not (l is False or st0.L.get(l) is False)
        fs = sx.clone(); fs.L = dict(st0.L); fs.ev = list(st0.ev)
        fs.ev.append(("copy", z(addr, first), z(src, first), mulc(cnt, w // 8), x[4], dict(st0.L), st0.armed is not None, wrap)); fs.ns = st0.ns + 1
        for nm in ("regs", "ops"):
            d = getattr(fs, nm)
            for k2 in list(d): d[k2] = subst(d[k2], iv, n)
        fs.flags = "unk"
        fs.trace = ["moved"]
        return [(loc, fs)]

class sh0:
    def __init__(self, st0, nm, k, W): self.v = getattr(st0, nm).get(k, A(W, ("init", k)))

# ------------------------------------------------------------------ IR side of a driver function
class Site:
    """one driver function: pre-asm effects, the asm, what each way out returns"""
    def __init__(self, mod, arch, fname):
        self.arch = arch; self.f = mod.funcs[fname]; self.mod = mod; self.W = arch.w
        self.env = {}; self.mem = {}; self.pre = []; self.asm = None
        for n, ty in self.f.params: self.env[n] = A(self.w(ty), ("arg", n))
        b = self.f.blocks[0]; seen = 0
        while True:
            nxt = None
            for i in b.insts:
                if i.op == "callbr": self.asm = i; self.asmblock = b; break
                r = self.step(i, None)
                if r is not None: nxt = r; break
            if self.asm is not None: break
            if nxt[0] == "ret": self.ret = nxt[1]; break
            if nxt[0] == "die": self.ret = "die"; break
            prev = b.name; b = self.f.bmap[nxt[1]]; seen += 1
            if seen > 20: raise Unknown("control flow before the section")
            for i in b.insts:
                if i.op == "phi":
                    self.env[i.res] = self.phi(i, prev)
    def w(self, ty): return self.W if ty.kind == "ptr" else ty.bits if ty.kind == "int" else 0
    def phi(self, i, prev):
        for v, l in self.incoming(i):
            if l == prev: return self.val(v)
        raise Unknown("phi")
    def incoming(self, i): return i.extra if i.extra and isinstance(i.extra[0], tuple) else list(zip(i.args, i.extra))
    def val(self, v):
        w = self.w(v.ty) if v.ty is not None else self.W
        if v.kind == "int": return K(w, v.val)
        if v.kind in ("null", "zero"): return K(w, 0)
        if v.kind == "global": return A(self.W, ("addr", v.name))
        if v.kind == "local":
            if v.name in self.env: return self.env[v.name]
            return A(w or self.W, ("ir", v.name))
        if v.kind == "cexpr": return A(w or self.W, ("cexpr", repr(v.args)))
        return A(w or self.W, ("ir?", v.kind))
    def step(self, i, prev):
        op = i.op; e = self.env
        if op == "phi": return None
        if op == "alloca": e[i.res] = A(self.W, ("alloca", i.res)); return None
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            v = self.val(i.args[0]); w = self.w(i.ty); e[i.res] = v if v.w == w else trunc(w, v) if v.w > w else ext("zx", w, v); return None
        if op in ("zext", "sext"): e[i.res] = ext("zx" if op == "zext" else "sx", self.w(i.ty), self.val(i.args[0])); return None
        if op == "trunc": e[i.res] = trunc(self.w(i.ty), self.val(i.args[0])); return None
        if op in ("add", "sub"): e[i.res] = add(self.val(i.args[0]), self.val(i.args[1]), 1 if op == "add" else -1); return None
        if op == "getelementptr":
            b = self.val(i.args[0]); src = i.extra
            try: off = self.gep(src, i.args[1:])
            except Exception: off = A(self.W, ("gep", i.res))
            e[i.res] = add(b, off); return None
        if op == "load":
            a = self.val(i.args[0]); w = self.w(i.ty); x = single(a)
            if x is not None and x[0] == "addr": e[i.res] = A(w, ("glob", x[1]))
            elif x is not None and x[0] == "alloca": e[i.res] = self.mem.get((x, 0)) or A(w, ("undef", x, w))
            else:
                e[i.res] = A(w, ("load", w, a, "pre")); self.pre.append(("load", a, w))
            return None
        if op == "store":
            v, a = self.val(i.args[0]), self.val(i.args[1])
            ats = [(x, k) for x, k in a.m if x[0] == "alloca"]
            if len(a.m) == 1 and ats and ats[0][1] == 1: self.mem[(ats[0][0], sg(a.c, self.W))] = v
            else: self.pre.append(("store", a, v.w, v))
            return None
        if op == "call":
            if i.extra[0] == "fn":
                nm = i.extra[1]
                if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias")): return None
                if nm in ("llvm.thread.pointer",) or nm.startswith("llvm.thread.pointer"): e[i.res] = A(self.W, ("tp",)); return None
                if nm in ("abort", "__assert_fail", "exit", "_exit", "llvm.trap"): return ("die",)
                self.pre.append(("call", nm))
                if i.res: e[i.res] = A(self.w(i.ty) or self.W, ("call", nm, i.res))
                return None
            if i.extra[0] == "asm":
                t = i.extra[1].strip()
                if not t and not i.res: return None
                if re.search(r"%fs:0|%gs:0|rdhwr|\bmrc\b|tpidr|\bear\b|mv .*tp|\$\$tp", t) and i.res:
                    seg = re.search(r"%([fg])s:0", t)
                    e[i.res] = A(self.w(i.ty) or self.W, ("tp",) if not seg or seg.group(1) == ("f" if self.W == 64 else "g") else ("reg", seg.group(0))); return None
                mt = re.match(r"^=\{\$?\$?(\w+)\}$", i.extra[2].split(",~")[0])
                if not t and mt and not i.args:
                    e[i.res] = A(self.W, ("tp",) if (self.arch.name[:5], mt.group(1)) in (("ppc64", "r13"), ("ppc", "r2"), ("loong", "r2"), ("loong", "tp")) else ("reg", mt.group(1))); return None
                if not t: e[i.res] = self.val(i.args[0]) if len(i.args) == 1 else A(self.w(i.ty), ("ir", i.res)); return None
                self.pre.append(("asm", t))
                if i.res: e[i.res] = A(self.w(i.ty) or self.W, ("asmres", i.res))
                return None
            self.pre.append(("call", "?"))
            return None
        if op == "br":
            if len(i.extra) == 1: return ("goto", i.extra[0])
            c = self.val(i.args[0])
            if isc(c) is not None: return ("goto", i.extra[0 if isc(c) else 1])
            raise Unknown("branch outside the section")
        if op == "ret": return ("ret", self.val(i.args[0]) if i.args else None)
        if op == "unreachable": return ("die",)
        if op == "icmp":
            e[i.res] = A(1, ("icmp", i.res)); return None
        if op == "select": e[i.res] = A(self.w(i.ty), ("sel", i.res)); return None
        if i.res: e[i.res] = A(self.w(i.ty) or self.W, ("ir", i.res))
        return None
    def gep(self, src, idx):
        t = src; off = K(self.W, 0)
        for n, v in enumerate(idx):
            x = self.val(v); c = isc(x)
            if n == 0:
                sz = self.mod.sizeof(t)
            else:
                t = self.mod.resolve(t)
                if t.kind == "struct":
                    off = add(off, K(self.W, self.mod.layout(t)[0][c])); t = t.elems[c]; continue
                t = t.elems[0] if t.kind == "array" else t
                sz = self.mod.sizeof(t)
            x = x if x.w == self.W else ext("sx", self.W, x)
            off = add(off, mulc(x, sz))
        return off
    def after(self, label):
        """outcome of leaving the asm towards an IR block: ("ret", T) or ("die",); effects in .posteff"""
        prev = self.asmblock.name; b = self.f.bmap[label]; n = 0; save = dict(self.env); pre = self.pre; self.pre = []
        try:
            while True:
                for i in b.insts:
                    if i.op == "phi": self.env[i.res] = self.phi(i, prev)
                nxt = None
                for i in b.insts:
                    if i.op == "callbr": raise Unknown("second section")
                    nxt = self.step(i, prev)
                    if nxt is not None: break
                if nxt[0] != "goto": return nxt, [x for x in self.pre if x[0] != "load"]
                prev = b.name; b = self.f.bmap[nxt[1]]; n += 1
                if n > 20: raise Unknown("control flow after the section")
        finally: self.env = save; self.pre = pre
    def operands(self):
        """operands in template order, clobbers, label index -> IR block"""
        i = self.asm; cons = splitcons(i.extra[2])
        ops = []; clob = set(); ai = 0; labels = {}
        outs = 0; rw = self.arch
        for c in cons:
            if c.startswith("~"): clob.add(c[2:-1].lower()); continue
            if c.startswith("!"):
                labels[len(ops)] = i.attrs["targets"][1 + len(labels)]; ops.append(Operand("label")); continue
            if c.startswith("=") and "*" not in c:
                o = Operand("reg", A(self.W, ("undefout", outs)), c, outs, self.W); outs += 1; ops.append(o); continue
            v = i.args[ai]; ai += 1; t = self.val(v)
            if "*" in c: ops.append(Operand("mem", t, c)); continue
            bits = t.w
            if t.w < self.W: t = ext("sx" if rw.intsx and t.w == 32 else "xx", self.W, t)
            m = re.match(r"^(\d+)$", c)
            o = Operand("reg", t, c, None, bits)
            if m:
                n = int(m.group(1)); ops[n].t = t; ops[n].bits = bits; ops[n].tied = True
            ops.append(o)
        return ops, clob, labels

def splitcons(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch == "{": d += 1
        if ch == "}": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    out.append(cur)
    return out
