"""Cut-point segments: every loop of a function is cut at chosen instructions (events), and each acyclic
control-flow segment between two events is summarised by its branch condition, its effects and the values that
reach the next event, as terms over the values at the previous event.  Independent of how the loops are written."""
import vg
from ir import Val

class Cyclic(Exception): pass

class SegVG(vg.VG):
    """value numbering along one path: tmemo is the environment of the path"""
    def __init__(self, mod, fname, immutable, structs, ctx=None):
        self.roaddr = None
        self.mod = mod; self.f = mod.funcs[fname]; self.c = ctx or vg.Ctx(); self.cfg = vg.CFG(self.f)
        self.immutable = immutable or (lambda t: False); self.structs = structs
        self.defs = {i.res: i for b in self.f.blocks for i in b.insts if i.res is not None}
        self.pidx = {n: i for i, (n, t) in enumerate(self.f.params)}; self.argnames = {}
        self.tmemo = {}; self.inprog = set(); self.iv = {}; self.callno = {}; self.cyclic = False; self._fstores = None
        n = {}
        for b in self.cfg.rpo:
            for i in self.f.bmap[b].insts:
                if i.op in ("call", "callbr"):
                    nm = self.callee(i); n[nm] = n.get(nm, 0) + 1; self.callno[id(i)] = n[nm]
    def opaque(self, d):
        if d.ty.kind == "int" and d.ty.bits == 1: return self.c.lit(("sv", d.res))
        return self.c.leaf(self.c.var(self.width(d.ty), ("sv", d.res)))
    def val(self, v):
        if v.kind == "local" and v.name not in self.tmemo and v.name not in self.pidx:
            d = self.defs[v.name]
            if d.op == "phi": r = self.opaque(d)
            elif d.op == "load" and not self.immutable(self.mod.tbaa_tag(d.tbaa)): r = self.opaque(d)
            elif d.op in ("call", "callbr", "cmpxchg", "atomicrmw") and not self._isp(d): r = self.opaque(d)
            else: r = self._inst(d)
            self.tmemo[v.name] = r
            return r
        return vg.VG.val(self, v)
    def _isp(self, d):
        if d.op != "call": return False
        nm = self.callee(d)
        return nm in vg.PURE_CALLS or nm in (getattr(self.mod, "pure", None) or {})
    def assume(self, b, r): return r
    def edge_cond(self, b, s):
        c = self.c; t = self.f.bmap[b].insts[-1]
        if t.op == "br":
            if len(t.extra) == 1 or t.extra[0] == t.extra[1]: return c.T
            cd = self.cond(t.args[0])
            return cd if t.extra[0] == s else c.NOT(cd)
        if t.op == "switch":
            x = self.val(t.args[0]); w = self.width(t.args[0].ty); dflt, cases = t.extra; r = c.F; al = c.F
            for v, l in cases:
                e = self.icmp("eq", x, self.k(v, w)); al = c.OR(al, e)
                if l == s: r = c.OR(r, e)
            if dflt == s: r = c.OR(r, c.NOT(al))
            return r
        if t.op in ("callbr", "invoke") and len(self.cfg.succ[b]) > 1: return c.lit(("goto", b, s))
        return c.T

class Eff:
    """a side effect passed on a segment, operands evaluated there"""
    __slots__ = ("inst", "args", "name", "op", "res", "cond")
    def __init__(self, inst, args, name, cond): self.inst, self.args, self.name, self.op, self.res, self.cond = inst, args, name, inst.op, inst.res, cond

class Segment:
    """start/end: instructions (start None = function entry); cond; env: values at the end; effs: instructions with side effects passed"""
    __slots__ = ("start", "end", "cond", "env", "effs", "blocks")
    def __init__(self, *a): self.start, self.end, self.cond, self.env, self.effs, self.blocks = a

class Seg:
    def __init__(self, mod, fname, immutable=None, structs=None, ctx=None, cap=20000, fwd=(), loads=False):
        """fwd: globals only this code writes (stores forwarded along a path); loads: list loads among the effects"""
        self.g = SegVG(mod, fname, immutable, structs, ctx); self.c = self.g.c; self.cap = cap; self.fwd = set(fwd); self.loads = loads
    def at(self, env, v):
        self.g.tmemo = env
        return self.g.val(v)
    def run(self, cut):
        """cut(inst) -> bool; returns all segments between cuts (returns always end a segment).  Merged values that are
        one constant whenever a cut is reached are propagated (conditional constant propagation over the cuts)"""
        cuts = [i for b in self.g.cfg.rpo for i in self.g.f.bmap[b].insts if cut(i)]
        self.cuts = cuts
        phis = [i for b in self.g.cfg.rpo for i in self.g.f.bmap[b].insts if i.op == "phi"]
        know = {}; segs = {}; todo = [None]; first = {id(i): i for i in cuts}
        while todo:
            st = todo.pop(0); base = know.get(id(st)) if st is not None else {}
            segs[id(st)] = self.walk(st, cut, base)
            for s in segs[id(st)]:
                e = s.end
                if id(e) not in first: continue
                new = {}
                for d in phis:
                    if d.res in s.env:
                        v = s.env[d.res]
                        if self._const(v): new[d.res] = v
                        elif not (st is not None and v is self._opq(d)): new[d.res] = None
                        else: new[d.res] = base.get(d.res)
                    elif st is not None and d.res in base: new[d.res] = base[d.res]
                    elif st is not None and d.res not in base: pass
                old = know.get(id(e))
                if old is None: know[id(e)] = new; todo.append(e) if e not in todo else None; continue
                m = dict(old); ch = False
                for r, v in new.items():
                    if r not in old: m[r] = v; ch = True
                    elif old[r] is not v and old[r] is not None: m[r] = None; ch = True
                if ch:
                    know[id(e)] = m
                    if e not in todo: todo.append(e)
        self.know = know
        out = list(segs[id(None)])
        for st in cuts: out += segs.get(id(st), [])
        return out
    def _opq(self, d): return self.g.opaque(d)
    def _const(self, v):
        c = self.c
        if v is c.T or v is c.F: return True
        return v.leaf is not None and not isinstance(v.leaf, bool) and c.cval(v.leaf) is not None
    def walk(self, st, cut, base=None):
        g = self.g; c = self.c; res = []; n = 0
        if st is None: todo = [(g.cfg.entry, 0, {}, c.T, [], (g.cfg.entry,))]
        else:
            todo = [(st.block.name, st.idx + 1, {r: v for r, v in (base or {}).items() if v is not None}, c.T, [], (st.block.name,))]
        while todo:
            b, k, env, cond, effs, path = todo.pop(); n += 1
            if n > self.cap: raise Cyclic("too many paths")
            insts = g.f.bmap[b].insts; stop = False
            g.tmemo = env
            for i in insts:
                if i.idx < k: continue
                if i.op == "phi": continue
                if cut(i) or i.op == "ret":
                    res.append(Segment(st, i, cond, env, effs, path)); stop = True; break
                if i.op == "unreachable": res.append(Segment(st, i, cond, env, effs, path)); stop = True; break
                if i.op in ("store", "call", "callbr", "cmpxchg", "atomicrmw", "fence"):
                    if i.op == "call" and (g._isp(i) or g.callee(i) in vg.NOEFFECT or g.callee(i).startswith("llvm.lifetime") or ".with.overflow." in g.callee(i)): pass
                    else: effs = effs + [Eff(i, [g.val(a) for a in i.args], g.callee(i) if i.op in ('call', 'callbr') else None, cond)]
                if i.res is not None:
                    env.pop(i.res, None)
                    if i.op == "load" and i.args[0].kind == "global" and ("m", i.args[0].name) in env: env[i.res] = env[("m", i.args[0].name)]
                    else: env[i.res] = g._inst(i)
                    if i.op == "load" and self.loads: effs = effs + [Eff(i, [g.val(i.args[0])], None, cond)]
                elif i.op == "store" and i.args[1].kind == "global" and i.args[1].name in self.fwd: env[("m", i.args[1].name)] = g.val(i.args[0])
            if stop: continue
            for s in g.cfg.succ[b]:
                g.tmemo = env
                e = c.AND(cond, g.edge_cond(b, s))
                if e is c.F: continue
                if path.count(s) >= 2: raise Cyclic("a loop without event at block %s" % s)
                ne = dict(env); vals = []
                for i in g.f.bmap[s].insts:
                    if i.op != "phi": break
                    for v, p in i.extra:
                        if p == b: vals.append((i.res, g.val(v))); break
                for r, v in vals: ne[r] = v
                # values computed in the block entered again are recomputed there
                for i in g.f.bmap[s].insts:
                    if i.op != "phi" and i.res is not None and i.res in ne and s in path: ne.pop(i.res)
                todo.append((s, 0, ne, e, effs, path + (s,)))
        return res
