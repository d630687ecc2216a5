"""Abstract interpretation of small pure scalar functions over intervals x known bits.

Used to decide, for every input, that a bit-search helper is floor/ceil log2 style: the input space is
split into one class per position of the most significant bit (plus exact powers of two), each class is
one abstract value, and the abstract result must be the singleton the mathematical definition gives.
No class is sampled: together the classes cover every representable input.
"""
class AV:
    """w-bit abstract value: unsigned interval [lo,hi] and known bits (zero mask z, one mask o)"""
    __slots__ = ("w", "lo", "hi", "z", "o")
    def __init__(self, w, lo, hi, z=0, o=0):
        full = (1 << w) - 1
        self.w = w
        # common leading bits of lo and hi are known
        diff = lo ^ hi
        n = diff.bit_length()
        top = full & ~((1 << n) - 1)
        o |= lo & top; z |= ~lo & top
        lo = max(lo, o); hi = min(hi, full & ~z)
        self.lo, self.hi, self.z, self.o = lo, hi, z & full, o & full
    @staticmethod
    def const(w, v): v &= (1 << w) - 1; return AV(w, v, v)
    @staticmethod
    def top(w): return AV(w, 0, (1 << w) - 1)
    def single(self): return self.lo if self.lo == self.hi else None
    def __repr__(self): return "[%d,%d]" % (self.lo, self.hi)

class Unknown(Exception): pass

def binop(op, a, b):
    w = a.w; full = (1 << w) - 1
    sa, sb = a.single(), b.single()
    if op == "add":
        if a.hi + b.hi <= full: return AV(w, a.lo + b.lo, a.hi + b.hi)
        if a.lo + b.lo > full: return AV(w, (a.lo + b.lo) & full, (a.hi + b.hi) & full)
        return AV.top(w)
    if op == "sub":
        if a.lo >= b.hi: return AV(w, a.lo - b.hi, a.hi - b.lo)
        if a.hi < b.lo: return AV(w, (a.lo - b.hi) & full, (a.hi - b.lo) & full)
        return AV.top(w)
    if op == "mul":
        if a.hi * b.hi <= full: return AV(w, a.lo * b.lo, a.hi * b.hi)
        return AV.top(w)
    if op == "and":
        z = a.z | b.z; o = a.o & b.o
        return AV(w, o, min(full & ~z, a.hi, b.hi), z, o)
    if op == "or":
        z = a.z & b.z; o = a.o | b.o
        return AV(w, max(a.lo, b.lo, o), full & ~z, z, o)
    if op == "xor":
        kn = (a.z | a.o) & (b.z | b.o); v = (a.o ^ b.o) & kn
        return AV(w, v, v | (full & ~kn), kn & ~v, v)
    if op in ("shl", "lshr", "ashr"):
        if sb is None or sb >= w: raise Unknown(op)
        if op == "shl":
            z = ((a.z << sb) | ((1 << sb) - 1)) & full; o = (a.o << sb) & full
            if a.hi << sb <= full: return AV(w, a.lo << sb, a.hi << sb, z, o)
            return AV(w, o, full & ~z, z, o)
        if op == "lshr" or (a.z >> (w - 1)):
            z = (a.z >> sb) | (full & ~(full >> sb)); o = a.o >> sb
            return AV(w, a.lo >> sb, a.hi >> sb, z, o)
        raise Unknown(op)
    if op in ("udiv",) and sb: return AV(w, a.lo // sb, a.hi // sb)
    raise Unknown(op)

def icmp(pred, a, b):
    """True/False/None"""
    w = a.w
    if pred in ("eq", "ne"):
        if a.single() is not None and a.single() == b.single(): r = True
        elif a.hi < b.lo or b.hi < a.lo or (a.o & b.z) or (a.z & b.o): r = False
        else: r = None
        return r if r is None or pred == "eq" else not r
    if pred[0] == "s":
        h = 1 << (w - 1)
        def s(x):
            if x.hi < h: return x.lo, x.hi
            if x.lo >= h: return x.lo - 2 * h, x.hi - 2 * h
            return -h, h - 1
        (al, ah), (bl, bh) = s(a), s(b)
    else: al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
    p = pred[1:]
    if p == "lt": return True if ah < bl else False if al >= bh else None
    if p == "le": return True if ah <= bl else False if al > bh else None
    if p == "gt": return True if al > bh else False if ah <= bl else None
    if p == "ge": return True if al >= bh else False if ah < bl else None

def join(a, b):
    return AV(a.w, min(a.lo, b.lo), max(a.hi, b.hi), a.z & b.z, a.o & b.o)

def interp(mod, f, args, depth=0):
    """abstract result (AV) of function f on abstract args; branches that are not decided are both
    followed and joined (with refinement of zero tests); loops are not supported"""
    if depth > 40: raise Unknown("depth")
    env = {n: a for (n, t), a in zip(f.params, args)}
    return _block(mod, f, f.blocks[0].name, None, env, depth, 0)

def _val(v, env):
    if v.kind == "int": return AV.const(v.ty.bits, v.val)
    if v.kind == "local": return env[v.name]
    if v.kind in ("undef",): return AV.top(v.ty.bits)
    raise Unknown(v.kind)

def _block(mod, f, b, prev, env, depth, fuel):
    if fuel > 400: raise Unknown("fuel")
    env = dict(env)
    blk = f.bmap[b]
    ph = {}
    for i in blk.insts:
        if i.op != "phi": break
        for v, p in i.extra:
            if p == prev: ph[i.res] = _val(v, env)
    env.update(ph)
    for i in blk.insts:
        op = i.op
        if op == "phi": continue
        if op == "ret": return _val(i.args[0], env)
        if op == "br":
            if len(i.extra) == 1: return _block(mod, f, i.extra[0], b, env, depth, fuel + 1)
            c = _val(i.args[0], env).single()
            if c is not None: return _block(mod, f, i.extra[0] if c else i.extra[1], b, env, depth, fuel + 1)
            if fuel > 12: raise Unknown("split")
            x = _block(mod, f, i.extra[0], b, env, depth, fuel + 8); y = _block(mod, f, i.extra[1], b, env, depth, fuel + 8)
            return join(x, y)
        if op == "switch":
            x = _val(i.args[0], env).single()
            if x is None: raise Unknown("switch")
            for v, l in i.extra[1]:
                if v & ((1 << i.args[0].ty.bits) - 1) == x: return _block(mod, f, l, b, env, depth, fuel + 1)
            return _block(mod, f, i.extra[0], b, env, depth, fuel + 1)
        if op == "unreachable": raise Unknown("unreachable")
        env[i.res] = _inst(mod, f, i, env, depth)
    raise Unknown("end")

def _inst(mod, f, i, env, depth):
    op = i.op
    if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv"):
        return binop(op, _val(i.args[0], env), _val(i.args[1], env))
    if op == "zext":
        a = _val(i.args[0], env); w = i.ty.bits; ext = ((1 << w) - 1) & ~((1 << a.w) - 1)
        return AV(w, a.lo, a.hi, a.z | ext, a.o)
    if op == "sext":
        a = _val(i.args[0], env); w = i.ty.bits; h = 1 << (a.w - 1)
        if a.hi < h: return AV(w, a.lo, a.hi)
        if a.lo >= h: d = (1 << w) - (1 << a.w); return AV(w, a.lo + d, a.hi + d)
        return AV.top(w)
    if op == "trunc":
        a = _val(i.args[0], env); w = i.ty.bits; m = (1 << w) - 1
        if a.hi <= m: return AV(w, a.lo, a.hi, a.z & m, a.o & m)
        return AV(w, a.o & m, m & ~(a.z & m), a.z & m, a.o & m)
    if op == "load" and i.args[0].kind == "global" and "@" + i.args[0].name in env: return env["@" + i.args[0].name]
    if op == "freeze": return _val(i.args[0], env)
    if op == "icmp":
        r = icmp(i.extra, _val(i.args[0], env), _val(i.args[1], env))
        return AV.top(1) if r is None else AV.const(1, int(r))
    if op == "select":
        c = _val(i.args[0], env).single(); a, b = _val(i.args[1], env), _val(i.args[2], env)
        return join(a, b) if c is None else a if c else b
    if op == "call" and i.extra[0] == "fn":
        nm = i.extra[1]; args = [_val(a, env) for a in i.args]
        if nm.startswith("llvm.ctlz"):
            a = args[0]; lo, hi = a.w - a.hi.bit_length(), a.w - a.lo.bit_length()
            return AV(i.ty.bits, lo, hi)
        if nm.startswith("llvm.ctpop"):
            a = args[0]; lo = bin(a.o).count("1")
            # no power of two in [lo,hi]: at least two bits
            if a.lo > 0 and 1 << (a.lo - 1).bit_length() > a.hi: lo = max(lo, 2)
            elif a.lo > 0: lo = max(lo, 1)
            return AV(i.ty.bits, lo, a.w - bin(a.z).count("1"))
        if nm.startswith("llvm.cttz"):
            a = args[0]
            if a.single() is not None:
                v = a.single(); return AV.const(i.ty.bits, (v & -v).bit_length() - 1 if v else a.w)
            lo = 0
            while lo < a.w and (a.z >> lo) & 1: lo += 1
            return AV(i.ty.bits, lo, a.w - 1 if a.o else a.w)
        if nm.startswith("llvm.umin"):
            a, b = args; return AV(a.w, min(a.lo, b.lo), min(a.hi, b.hi))
        if nm.startswith("llvm.umax"):
            a, b = args; return AV(a.w, max(a.lo, b.lo), max(a.hi, b.hi))
        if nm in mod.funcs: return interp(mod, mod.funcs[nm], args, depth + 1)
    raise Unknown(op)

def classes_fls(w):
    """(abstract input, expected value): position of the most significant set bit, 0 for 0"""
    yield AV.const(w, 0), 0, "0"
    for j in range(w): yield AV(w, 1 << j, (1 << (j + 1)) - 1), j + 1, "[2^%d, 2^%d)" % (j, j + 1)
def classes_clog2(w):
    """smallest n with 2^n >= x; -1 for 0"""
    yield AV.const(w, 0), -1, "0"
    yield AV.const(w, 1), 0, "1"
    for j in range(1, w): yield AV.const(w, 1 << j), j, "2^%d" % j
    for j in range(1, w): yield AV(w, (1 << j) + 1, (1 << (j + 1)) - 1), j + 1, "(2^%d, 2^%d)" % (j, j + 1)

def decide_class(mod, f, a, e, depth=6):
    """(True | False | None, text): does f give e on the whole class a? An imprecise class is split in halves;
    its end points are classes of one value."""
    r = interp(mod, f, [a]); m = (1 << r.w) - 1; v = r.single()
    if v is not None: return (v == e & m, str(v))
    if (e & m) < r.lo or (e & m) > r.hi: return (False, repr(r))
    if a.lo == a.hi: return (None, repr(r))
    for x in (a.lo, a.hi):
        st, t = decide_class(mod, f, AV.const(a.w, x), e, 0)
        if st is False: return (False, "%s at %#x" % (t, x))
    if not depth: return (None, repr(r))
    mid = (a.lo + a.hi) // 2; out = (True, "")
    for lo, hi in ((a.lo, mid), (mid + 1, a.hi)):
        q = decide_class(mod, f, AV(a.w, lo, hi), e, depth - 1)
        if q[0] is False: return q
        if q[0] is None: out = q
    return out

def check(mod, f, classes):
    """('holds', n) | ('fails', class text, got, expected) | ('unknown', why)"""
    n = 0; bad = None; unk = None
    rw = None
    w = f.params[0][1].bits
    for a, e, txt in classes(w):
        try: st, r = decide_class(mod, f, a, e)
        except (Unknown, KeyError, RecursionError) as x: unk = unk or (txt, str(x)); continue
        if st is False: bad = bad or (txt, r, e)
        elif st is None: unk = unk or (txt, "imprecise " + r)
        n += 1
    if bad: return ("fails",) + bad
    if unk: return ("unknown",) + unk
    return ("holds", n)

def pure_functions(mod):
    """internal functions without memory access or calls except to other such functions"""
    ok = set(mod.funcs); ch = True
    while ch:
        ch = False
        for n in list(ok):
            f = mod.funcs[n]
            good = all(t.kind == "int" for _, t in f.params) and f.params
            for b in f.blocks:
                for i in b.insts:
                    if i.op in ("load", "store", "alloca", "cmpxchg", "atomicrmw", "fence", "callbr", "invoke"): good = False
                    if i.op == "call" and not (i.extra[0] == "fn" and (i.extra[1].startswith(("llvm.ct", "llvm.um", "llvm.sm", "llvm.assume")) or i.extra[1] in ok)): good = False
            if not good: ok.discard(n); ch = True
    return ok

def classify(mod):
    """name -> 'fls' | 'clog2' for pure one-argument helpers"""
    out = {}
    for n in pure_functions(mod):
        f = mod.funcs[n]
        if len(f.params) != 1 or f.params[0][1].bits not in (32, 64): continue
        for nm, cl in (("fls", classes_fls), ("clog2", classes_clog2)):
            if check(mod, f, cl)[0] == "holds": out[n] = nm; break
    return out
