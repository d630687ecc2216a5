"""Compile /repo sources to normalised LLVM IR (never executed)."""
import os, re, subprocess
from ir import Module
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang"
OPT = "opt-18" if os.path.exists("/usr/bin/opt-18") else "/usr/lib/llvm-18/bin/opt"
BASE = ["-D_GNU_SOURCE", "-I" + REPO + "/include", "-I" + REPO + "/src", "-Wno-everything"]

class CompileError(Exception): pass

def run(cmd, inp=None):
    r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise CompileError(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace")[:4000])
    return r.stdout

PIPE1 = "function(lower-expect,sroa,early-cse,simplifycfg)"
PIPE2 = ("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
  "gvn<no-pre;no-load-pre>,instcombine<no-verify-fixpoint>,correlated-propagation,simplifycfg,gvn<no-pre;no-load-pre>,"
  "instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify,lcssa)")

def emit(src, extra=(), opt="-O1"):
    """Front-end output only: -O1 without any LLVM pass, so that TBAA tags are present."""
    return run([CLANG, "-g", opt, "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-S", "-emit-llvm", *BASE, *extra, src, "-o", "-"]).decode()

def opt(ll, passes, *args):
    return run([OPT, "-S", *args, "-passes=" + passes, "-", "-o", "-"], ll.encode()).decode()

def mark(ll, keep=(), pure=()):
    """alwaysinline on every internal function except those in keep (noinline); pure ones are memory(none)"""
    out = []
    for l in ll.split("\n"):
        if l.startswith("define "):
            m = re.search(r"@([\w.$]+)\(", l)
            nm = m.group(1)
            if re.match(r"define (dso_local )?(internal|linkonce_odr|available_externally)", l):
                d = 0; k = m.end() - 1
                while True:     # attribute keywords go right after the parameter list
                    c = l[k]; d += (c == "(") - (c == ")"); k += 1
                    if d == 0: break
                a = " noinline memory(none) nounwind willreturn" if nm in pure else " noinline" if nm in keep else " alwaysinline"
                l = l[:k] + a + l[k:]
        elif l.startswith("attributes #"):
            l = re.sub(r"\b(noinline|optnone|alwaysinline)\b ?", "", l)
        out.append(l)
    return "\n".join(out)

def callgraph(mod):
    g = {}
    for n, f in mod.funcs.items():
        s = set()
        for b in f.blocks:
            for i in b.insts:
                if i.op in ("call", "callbr", "invoke") and i.extra[0] == "fn": s.add(i.extra[1])
                for a in i.args:
                    if a.kind == "global" and a.name in mod.funcs: s.add(a.name)
        g[n] = s
    return g

def reach(g, roots):
    seen = set(); st = list(roots)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(g.get(x, ()))
    return seen

_cache = {}
def module(relsrc, extra=(), inline_public=False, keep=None, pure=True):
    """keep: None or function(rawmod, callgraph) -> set of internal functions to leave as calls"""
    key = (relsrc, tuple(extra), inline_public, keep, pure)
    if key not in _cache:
        import bitdom
        src = relsrc if relsrc.startswith("/") else os.path.join(REPO, relsrc)
        ll = emit(src, extra)
        ll1 = opt(ll, PIPE1)
        raw = Module(ll1)
        g = callgraph(raw)
        pc = bitdom.classify(raw) if pure else {}
        # keep the outermost classified helpers only: a classified helper that is only used by
        # classified helpers disappears with them
        ks = keep(raw, g) if keep else set()
        ll2 = mark(ll1, ks, pc)
        args = []
        if inline_public:
            args = ["-inline-threshold=100000000", "-inlinecold-threshold=100000000"]
            p = PIPE1 + ",always-inline,cgscc(inline),globaldce," + PIPE2
        else:
            p = PIPE1 + ",always-inline,globaldce," + PIPE2
        m = Module(opt(ll2, p, *args))
        m.pure = pc; m.kept = ks; m.raw = raw; m.cg = g
        _cache[key] = m
    return _cache[key]

def tls_object(relsrc, sym):
    """(size, alignment of its section, initial bytes) of a thread-local object as laid out by the compiler, or None"""
    import struct, tempfile
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, "o.o")
        run([CLANG, "-O1", *BASE, "-c", os.path.join(REPO, relsrc), "-o", o])
        b = open(o, "rb").read()
    if b[:6] != b"\x7fELF\x02\x01": return None
    shoff, = struct.unpack_from("<Q", b, 40); n, = struct.unpack_from("<H", b, 60)
    sh = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + 64 * i) for i in range(n)]
    for s in sh:
        if s[1] != 2: continue          # SHT_SYMTAB
        st = sh[s[6]]
        for k in range(s[5] // 24):
            nm, info, oth, shn, val, size = struct.unpack_from("<IBBHQQ", b, s[4] + 24 * k)
            e = b.index(b"\0", st[4] + nm)
            if b[st[4] + nm:e].decode() == sym and info & 15 == 6 and 0 < shn < n:
                x = sh[shn]
                return size, x[8], bytes(size) if x[1] == 8 else b[x[4] + val:x[4] + val + size]
    return None
