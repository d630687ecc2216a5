"""Bit-search, power-of-two, alignment and page-size helpers (C28), for every input, on 32-bit and 64-bit words.

Each helper is wrapped in a function of its own, compiled for a 64-bit and for 32-bit targets, and interpreted
abstractly: the inputs are split into finitely many classes (position of the top bit, exact powers of two) that
together cover every representable value; the abstract result of a class must be the value the definition gives."""
import os, subprocess, tempfile
import cc, asmx, bitdom, vg, decide
from bitdom import AV, Unknown
from ir import Module
P = ("C28",)
TARGETS = ("x86-64", "i386", "arm", "ppc64")
PRE = '#include "rseq-utils.h"\n'
SNIP = {
 "rseq_fls_u64": "unsigned int w(uint64_t x) { return rseq_fls_u64(x); }",
 "rseq_fls_u32": "unsigned int w(uint32_t x) { return rseq_fls_u32(x); }",
 "rseq_fls_ulong": "unsigned int w(unsigned long x) { return rseq_fls_ulong(x); }",
 "rseq_get_count_order_ulong": "int w(unsigned long x) { return rseq_get_count_order_ulong(x); }",
 "rseq_hweight_ulong": "int w(unsigned long x) { return rseq_hweight_ulong(x); }",
 "is_pow2": "unsigned int w(uint64_t x) { return is_pow2(x) ? 1 : 0; }",
 "offset_align": "uintptr_t w(uintptr_t p) { return (uintptr_t) offset_align(p, (size_t) 1 << %d); }",
 "rseq_align": "unsigned long w(unsigned long v) { return rseq_align(v, 1UL << %d); }",
 "rseq_align32": "uint64_t w(uint64_t v) { return rseq_align(v, 1U << %d); }",
 "rseq_get_page_len": "unsigned long w(void) { return rseq_get_page_len(); }",
}
def pow2_classes(w):
    for j in range(w): yield AV.const(w, 1 << j), 1, "2^%d" % j
    for j in range(1, w): yield AV(w, (1 << j) + 1, (1 << (j + 1)) - 1), 0, "(2^%d, 2^%d)" % (j, j + 1)

def compile_(arch, body):
    with tempfile.NamedTemporaryFile("w", suffix=".c", delete=False) as t: t.write(PRE + body + "\n"); fn = t.name
    try:
        r = subprocess.run(["clang", *asmx.cflags(asmx.BYNAME[arch]), "-I" + cc.REPO + "/src", "-Wno-everything", "-fno-discard-value-names", "-g0", "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", fn, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode: return None, r.stderr.decode(errors="replace")[:300]
        return cc.opt(cc.mark(cc.opt(r.stdout.decode(), cc.PIPE1)), cc.PIPE1 + ",always-inline,globaldce," + cc.PIPE2), None
    finally: os.unlink(fn)

def run(rep, shared=None):
    for arch in TARGETS:
        lb = asmx.BYNAME[arch].bits if hasattr(asmx.BYNAME[arch], "bits") else (64 if "64" in arch else 32)
        for fn, cl, props in (("rseq_fls_u64", bitdom.classes_fls, P), ("rseq_fls_u32", bitdom.classes_fls, P), ("rseq_fls_ulong", bitdom.classes_fls, P), ("rseq_get_count_order_ulong", bitdom.classes_clog2, ("C28", "C14", "C23")), ("is_pow2", pow2_classes, ("C28", "C23")), ("rseq_hweight_ulong", None, ("C28", "C17"))):
            ll, e = compile_(arch, SNIP[fn]); where = "%s [%s]" % (fn, arch)
            rep.analysed("src/rseq-utils.h:" + fn)
            if ll is None: rep.und(props, "bits", where, e); continue
            m = Module(ll); f = m.funcs["w"]
            if cl is None: hweight(rep, props, where, m, f); continue
            r = bitdom.check(m, f, cl)
            if r[0] == "holds": rep.ok(props, "bits", where, "exact for all inputs (%d classes)" % r[1])
            elif r[0] == "fails": rep.bad(props, "bits", where, "wrong for x in %s: %s instead of %s" % r[1:4], "src/rseq-utils.h " + fn)
            else: rep.und(props, "bits", where, str(r))
        aligns(rep, arch)
        page(rep, arch)

def hweight(rep, props, where, m, f):
    calls = [i for b in f.blocks for i in b.insts if i.op == "call"]
    rets = [i for b in f.blocks for i in b.insts if i.op == "ret"]
    if len(f.blocks) == 1 and len(calls) == 1 and str(calls[0].extra[1]).startswith("llvm.ctpop") and calls[0].args[0].kind == "local" and calls[0].args[0].name == f.params[0][0]:
        w = f.params[0][1].bits
        rep.ok(props, "bits", where, "population count of the whole word"); return
    w = f.params[0][1].bits; unk = False
    full = (1 << w) - 1
    for v in [0, full] + [1 << j for j in range(w)] + [full & ~(1 << j) for j in range(w)]:
        try: r = bitdom.interp(m, f, [AV.const(w, v)])
        except (Unknown, KeyError, RecursionError): unk = True; continue
        n = bin(v).count("1")
        if n < r.lo or n > r.hi: rep.bad(props, "bits", where, "counts %s bits in %#x" % (r, v), "src/rseq-utils.h"); return
    rep.und(props, "bits", where, "no closed form")

def aligns(rep, arch):
    for fn, key, W in (("offset_align", "offset_align", None), ("rseq_align", "rseq_align", None), ("rseq_align", "rseq_align32", 64)):
        where = "%s%s [%s]" % (fn, " (64-bit value, int alignment)" if W else "", arch); props = ("C28", "C19")
        rep.analysed("src/rseq-utils.h:" + fn)
        lb = 32 if arch in ("i386", "arm") else 64
        n = lb if W is None else 31
        # one function per power of two
        body = "\n".join((SNIP[key] % j).replace(" w(", " w%d(" % j) for j in range(n))
        ll, e = compile_(arch, body)
        if ll is None: rep.und(props, "align", where, e); continue
        m = Module(ll); st = None
        for j in range(n):
            f = m.funcs["w%d" % j]
            try: r = one(m, "w%d" % j, fn, j)
            except Exception as x: r = None
            if r is False:
                rep.bad(props, "align", where, "wrong for alignment 2^%d" % j, "src/rseq-utils.h " + fn); st = False; break
            if r is None and st is None: st = "undecided for alignment 2^%d" % j
        if st is None: rep.ok(props, "align", where, "exact for every value and each of the %d alignments" % n)
        elif st is not False: rep.und(props, "align", where, st)

def one(m, name, fn, j):
    g = vg.VG(m, name); c = g.c
    v = g.ret_value(); w = g.width(m.funcs[name].params[0][1])
    x = c.leaf(c.var(w, ("arg", 0))) if False else g.val(arg0(m, name))
    mask = (1 << j) - 1
    if v.b is not None: return samp(c, v, x, fn, j, w)
    xp = x.leaf
    # residue form: and(y, mask) with y congruent to -x (or x for the multiple below), for all x
    r = v.leaf; cv = c.cval(r)
    def low(p):          # p as and(y, mask) or constant 0 for j == 0
        if j == 0: return None
        y = low1(p)
        if y is not None: return y
        y = low1(c.padd(c.const(w, mask), p, -1))      # mask - and(y, mask) is and(~y, mask)
        return None if y is None else c.padd(c.const(w, -1), y, -1)
    def low1(p):
        a = c.single(p)
        if a is None or c.alist[a][0] != "and": return None
        k = c.alist[a]
        for y, z in ((k[1], k[2]), (k[2], k[1])):
            if c.cval(z) == mask: return y
        return None
    def cong(p, q):      # p == q modulo 2^j, coefficient-wise
        return all(co % (1 << j) == 0 for co in c.padd(p, q, -1).d.values())
    if fn == "offset_align":
        if j == 0: ok = cv == 0
        else:
            y = low(r); ok = y is not None and cong(y, c.pneg(xp))
        return True if ok else samp(c, v, x, fn, j, w)
    # rseq_align: x + offset, or and(x + mask, ~mask)
    a = c.single(r)
    if j == 0: ok = r == xp
    else:
        ok = False
        y = low(c.padd(r, xp, -1))
        if y is not None and cong(y, c.pneg(xp)): ok = True
        # (x + mask) - and(x + mask, mask)
        t = c.padd(c.padd(xp, c.const(w, mask)), r, -1); y = low(t)
        if y is not None and cong(y, c.padd(xp, c.const(w, mask))): ok = True
        if a is not None and c.alist[a][0] == "and":
            k = c.alist[a]
            for y, z in ((k[1], k[2]), (k[2], k[1])):
                if c.cval(z) == ((1 << w) - 1) & ~mask and c.padd(y, xp, -1) == c.const(w, mask): ok = True
    return True if ok else samp(c, v, x, fn, j, w)

def samp(c, v, x, fn, j, w):
    """False if the term separates from the definition at some value, else None"""
    import random
    full = (1 << w) - 1; a = c.single(x.leaf)
    for t in range(200):
        e = decide.Env(c, random.Random(t))
        if t < 40: e.v[a] = [0, 1, full, full - 1, 1 << (w - 1), (1 << j) & full, ((1 << j) - 1) & full, ((1 << j) + 1) & full, (-(1 << j)) & full, 5][t % 10]
        else: e.v[a] = e.r.getrandbits(w)
        xv = e.v[a]
        want = -xv & ((1 << j) - 1) if fn == "offset_align" else (xv + (-xv & ((1 << j) - 1))) & full
        got = e.node(v)
        if got is not None and got & full != want: return False
    return None

def arg0(m, name):
    from rules_set import vg_arg
    return vg_arg(vg.VG(m, name), 0)

def page(rep, arch):
    fn = "rseq_get_page_len"; where = "%s [%s]" % (fn, arch); props = ("C28", "C27", "C19")
    ll, e = compile_(arch, SNIP[fn]); rep.analysed("src/rseq-utils.h:" + fn)
    if ll is None: rep.und(props, "page", where, e); return
    m = Module(ll)
    old = set(vg.PURE_CALLS)
    try: g = vg.VG(m, "w"); v = g.ret_value()
    except Exception as x: rep.und(props, "page", where, repr(x)[:100]); return
    c = g.c
    import random
    ats = [a for a in c.deep_atoms(v) if c.alist[a][0] == "page" or c.alist[a][:2] == ("fcall", "sysconf")]
    if not ats:
        ok = not c.deep_atoms(v); rep.bad(props, "page", where, "the page length is %s, whatever the system's is" % c.s(v)[:40], "src/rseq-utils.h " + fn) if ok else rep.und(props, "page", where, c.s(v)[:80]); return
    if len(ats) != 1: rep.und(props, "page", where, "no single query: %s" % c.s(v)[:80]); return
    a = ats[0]; lw = 32 if arch in ("i386", "arm") else 64
    if c.alist[a][0] == "fcall": rep.bad(props, "page", where, "asks for %s instead of the page size" % c.s_poly(c.alist[a][2][0]), fn); return
    for val in (4096, 16384, 65536, 1 << 24):
        e = decide.Env(c, random.Random(1)); e.v[a] = e.page = val
        got = e.node(v)
        if got & ((1 << lw) - 1) != val: rep.bad(props, "page", where, "page length is %d when the system says %d" % (got, val), "src/rseq-utils.h " + fn); return
    rep.ok(props, "page", where, "the system's page size")

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(100000)
    from report import Report
    r = Report(); run(r)
    for k, v in sorted(r.obl.items()):
        if v[1] != "holds" or "-v" in sys.argv: print(v[1], k, v[2][:300])
    print(len(r.obl))
