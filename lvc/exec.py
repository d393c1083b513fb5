"""Symbolic execution of LLVM IR with state merging; produces proof obligations."""
import os
import re, subprocess, math, time, bisect
import ir
from terms import *
import terms as tm
import solve

class Unsupported(Exception): pass
class NeedInvariant(Exception):
    def __init__(s, key): s.key = key; Exception.__init__(s, 'loop needs an invariant: %s' % (key,))
class Budget(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return 'Ptr(%d,%r)' % (s.obj, s.off)
class MPtr:
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'MPtr(%r)' % (s.alts,)
class Agg(list): pass
Z64 = const(0, 64)
NULL = Ptr(0, Z64)

def alts(p):
    if isinstance(p, Ptr): return [(TRUE, p.obj, p.off)]
    if isinstance(p, MPtr): return p.alts
    raise Unsupported('not a pointer: %r' % (p,))
def mkptr(al):
    d = {}
    for c, o, f in al:
        if c is FALSE: continue
        if o in d: d[o] = (bor(d[o][0], c), ite(d[o][0], d[o][1], f) if d[o][1] is not f else f)
        else: d[o] = (c, f)
    if len(d) == 1:
        (o, (c, f)), = d.items()
        return Ptr(o, f)
    return MPtr([(c, o, f) for o, (c, f) in d.items()])
def vite(c, a, b):
    """ite over any value kind"""
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, T) and isinstance(b, T):
        if a.s != b.s:
            if a.s < 0 and b.s > 0: return ite(c, fbits(a), b)
            if b.s < 0 and a.s > 0: return ite(c, a, fbits(b))
            raise Unsupported('merge sorts %d %d' % (a.s, b.s))
        return ite(c, a, b)
    if isinstance(a, (Ptr, MPtr)) and isinstance(b, (Ptr, MPtr)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off))
        nc = bnot(c)
        return mkptr([(band(c, g), o, f) for g, o, f in alts(a)] + [(band(nc, g), o, f) for g, o, f in alts(b)])
    if isinstance(a, Agg) and isinstance(b, Agg): return Agg(vite(c, x, y) for x, y in zip(a, b))
    if a is None: return b
    if b is None: return a
    # pointer vs integer
    if isinstance(a, (Ptr, MPtr)) and isinstance(b, T): return ite(c, p2i(a), b)
    if isinstance(b, (Ptr, MPtr)) and isinstance(a, T): return ite(c, a, p2i(b))
    raise Unsupported('merge %r %r' % (a, b))
def p2i(p):
    r = None
    for c, o, f in alts(p):
        v = f if o == 0 else add(mk('pb', (), o, 64), f)
        r = v if r is None else ite(c, v, r)
    return r
def i2p(t):
    if is_c(t): return Ptr(0, t)
    if t.op == 'pb': return Ptr(t.k, Z64)
    if t.op == 'lin':
        bs = [(co, x) for co, x in zip(t.k[1], t.args) if x.op == 'pb']
        if len(bs) == 1 and bs[0][0] == 1:
            return Ptr(bs[0][1].k, sub(t, bs[0][1]))
    if t.op == 'ite': return vite(t.args[0], i2p(t.args[1]), i2p(t.args[2]))
    raise Unsupported('inttoptr %r' % t)

class Obj:
    __slots__ = ('id', 'size', 'cells', 'name', 'kind', 'own', 'alive', 'zero')
    def clone(s, own):
        o = Obj(); o.id = s.id; o.size = s.size; o.cells = dict(s.cells); o.name = s.name
        o.kind = s.kind; o.own = own; o.alive = s.alive; o.zero = s.zero
        return o
_tok = [0]
def newtok(): _tok[0] += 1; return _tok[0]

class St:
    __slots__ = ('pc', 'mem', 'tok', 'throw_ok', '_set', '_b', '_r')
    def __init__(s, pc, mem, throw_ok): s.pc = pc; s.mem = mem; s.tok = newtok(); s.throw_ok = throw_ok; s._set = None; s._b = None; s._r = None
    def fork(s):
        s.tok = newtok()
        r = St(s.pc, dict(s.mem), s.throw_ok)
        r._set = s._set; r._b = s._b; r._r = s._r
        return r
    def assume(s, c):
        """returns False if path dies"""
        if c is TRUE: return True
        if c is FALSE: return False
        xs = c.args if c.op == 'and_' else (c,)
        ps = s.pcset()
        new = []
        for x in xs:
            if x.id in ps: continue
            if bnot(x).id in ps: return False
            new.append(x)
        if new:
            s.pc = s.pc + tuple(new)
            s._set = ps | {x.id for x in new}; s._b = None; s._r = None
        return True
    def pcset(s):
        if s._set is None: s._set = frozenset(x.id for x in s.pc)
        return s._set
    def bknown(s, c):
        """decide c from interval facts on the path"""
        if c.op == 'not':
            k = s.bknown(c.args[0]); return None if k is None else not k
        if c.op not in ('eq', 'ult') or c.args[0].s <= 0: return None
        if s._b is None: s._b = solve.path_bounds(s.pc)
        if not s._b: return None
        a, b = c.args
        la, ha = s.brange(a); lb, hb = s.brange(b)
        if c.op == 'ult': return True if ha < lb else False if la >= hb else None
        return False if ha < lb or hb < la else None
    def brange(s, t):
        if s._r is None: s._r = solve.rngfn(s._b)
        l, h = urange(t); l2, h2 = s._r(t)
        return max(l, l2), min(h, h2)
    def nonneg(s, t):
        if t.s <= 1: return False
        if s._b is None: s._b = solve.path_bounds(s.pc)
        return s.brange(t)[1] < 1 << (t.s-1)
    def known(s, c):
        if c.op == 'c': return bool(c.k)
        ps = s.pcset()
        if c.id in ps: return True
        if bnot(c).id in ps: return False
        k = s.bknown(c)
        if k is not None: return k
        if c.op == 'or_' and any(x.id in ps for x in c.args): return True
        if c.op == 'and_' and any(bnot(x).id in ps for x in c.args): return False
        return None

class Ob:
    __slots__ = ('name', 'pc', 'goal', 'where', 'kind', 'status', 'by', 'model', 'time', 'extra')
    def __init__(s, kind, name, pc, goal, where):
        s.kind = kind; s.name = name; s.pc = pc; s.goal = goal; s.where = where
        s.status = None; s.by = None; s.model = None; s.time = 0.0; s.extra = None

class Contract: pass

CMP = {'eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'}

class Exec:
    def __init__(s, mod, demangle, feasible=None, opts=None):
        s.mod = mod; s.dem = demangle
        s.obs = []; s.nobj = 1; s.covers = {}
        s.stack = []; s.gobj = {}; s.globals_mem = {}
        s.repl = []; s.replcache = {}; s.invs = []; s.repl_rec = []
        s.feasible = feasible or (lambda pc: True)
        s.opts = dict(max_unroll=80, max_iter=2000000, steps=40000000)
        if opts: s.opts.update(opts)
        s.inv_loops = set(); s.force_inv = []
        s.funcs_seen = {}; s.steps = 0
        s.undefs = 0; s.nd = {}
        s.quiet = 0; s.havocs = []
        s.inv_report = []; s.cut_eqs = []; s.trusted = set(); s.deadline = None

    # ---------------------------------------------------------------- obligations
    def oblige(s, kind, name, st, goal, where=None):
        if s.quiet: return
        w = where or [s.dem(f) for f in s.stack[-4:]]
        s.obs.append(Ob(kind, name, st.pc, goal, w))

    # ---------------------------------------------------------------- memory
    def newobj(s, st, size, kind, name):
        o = Obj(); o.id = s.nobj; s.nobj += 1
        o.size = size; o.cells = {}; o.kind = kind; o.name = name; o.own = st.tok; o.alive = True; o.zero = False
        st.mem[o.id] = o
        return o
    def getobj(s, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = s.globals_mem.get(oid)
            if o is None: raise Unsupported('access to dead object %d' % oid)
            st.mem[oid] = o
        return o
    def wobj(s, st, oid):
        o = s.getobj(st, oid)
        if o.own != st.tok:
            o = o.clone(st.tok); st.mem[oid] = o
        return o
    def global_ptr(s, name):
        if name in s.gobj: return s.gobj[name]
        if name in s.mod.funcs or name not in s.mod.globals:
            o = Obj(); o.id = s.nobj; s.nobj += 1; o.kind = 'fn'; o.name = name; o.size = 0; o.cells = {}; o.own = -1; o.alive = True; o.zero = False
        else:
            ty, init, cst = s.mod.gdef(name)
            if ty == 'alias': 
                r = s.cval(init, ir.PTR); s.gobj[name] = r; return r
            o = Obj(); o.id = s.nobj; s.nobj += 1; o.kind = 'const' if cst else 'global'; o.name = name; o.size = ir.size(ty); o.cells = {}; o.own = -1; o.alive = True; o.zero = False
            if init is not None:
                if init[0] == 'zero': o.zero = True
                else:
                    s.gobj[name] = Ptr(o.id, Z64)
                    s.fill(o, 0, ty, init)
        s.globals_mem[o.id] = o
        s.gobj[name] = Ptr(o.id, Z64)
        return s.gobj[name]
    def fill(s, o, off, ty, v):
        if v[0] == 'undef': return
        if ty.k == 'a':
            es = ir.size(ty.el)
            if v[0] == 'zero':
                for i in range(ty.n): s.fill(o, off+i*es, ty.el, v)
            else:
                for i, x in enumerate(v[2]): s.fill(o, off+i*es, ty.el, x)
        elif ty.k == 's':
            offs = ir.offsets(ty)
            for i, e in enumerate(ty.el): s.fill(o, off+offs[i], e, v if v[0] == 'zero' else v[2][i])
        else:
            o.cells[off] = (ir.size(ty), s.memval(s.cval(v, ty), ty))
    def memval(s, v, ty):
        if ty.k == 'i':
            n = ir.size(ty)*8
            if ty.n != n: return zext(v, n)
        return v
    def cval(s, v, ty):
        k = v[0]
        if k == 'i': return const(v[1], ty.n) if ty.n > 1 else boolc(v[1] & 1)
        if k == 'f': return const(v[2], -v[1].n)
        if k == 'null': return NULL
        if k == 'g': return s.global_ptr(v[1])
        if k == 'undef':
            return s.undef(ty)
        if k == 'zero': return s.zero(ty)
        if k == 'agg': 
            if ty.k == 's': return Agg(s.cval(x, t) for x, t in zip(v[2], ty.el))
            return Agg(s.cval(x, ty.el) for x in v[2])
        if k == 'gep': 
            vals = [s.cval(x, t) for t, x in v[2]]
            return s.gep(v[1], vals, [t for t, _ in v[2]])
        if k == 'cast':
            x = s.cval(v[3], v[2])
            return s.cast(v[1], x, v[2], v[4])
        if k == 'bin':
            a = s.cval(v[4], v[3]); b = s.cval(v[5], v[3])
            return s.binop(v[1], a, b, v[3])
        raise Unsupported('const %r' % (v,))
    def undef(s, ty):
        if ty.k == 'i': return fresh('undef', ty.n if ty.n > 1 else 0)
        if ty.k == 'f': return fresh('undef', -ty.n)
        if ty.k == 'ptr': return Ptr(0, fresh('undefp', 64))
        if ty.k == 's': return Agg(s.undef(e) for e in ty.el)
        if ty.k == 'a': return Agg(s.undef(ty.el) for _ in range(ty.n))
        raise Unsupported('undef '+ty.k)
    def zero(s, ty):
        if ty.k == 'i': return const(0, ty.n if ty.n > 1 else 0)
        if ty.k == 'f': return const(0, -ty.n)
        if ty.k == 'ptr': return NULL
        if ty.k == 's': return Agg(s.zero(e) for e in ty.el)
        if ty.k == 'a': return Agg(s.zero(ty.el) for _ in range(ty.n))
        raise Unsupported('zero '+ty.k)

    def tobits(s, v):
        if isinstance(v, T): return fbits(v) if v.s < 0 else v
        return p2i(v)
    def split(s, o, off, n):
        """make [off, off+n) not partially overlapped; return covered cell offsets"""
        cells = o.cells; r = []
        end = off+n
        if n <= 64: cand = [x for x in range(off-16, end) if x in cells]
        else: cand = sorted(x for x in cells if off-16 <= x < end)
        for x in cand:
            cn, v = cells[x]
            if x+cn <= off: continue
            if x >= off and x+cn <= end: r.append(x); continue
            b = s.tobits(v)
            del cells[x]
            if x < off:
                cells[x] = (off-x, extract(b, (off-x)*8-1, 0))
            lo = max(x, off); hi = min(x+cn, end)
            cells[lo] = (hi-lo, extract(b, (hi-x)*8-1, (lo-x)*8)); r.append(lo)
            if x+cn > end:
                cells[end] = (x+cn-end, extract(b, cn*8-1, (end-x)*8))
        return r
    def rd(s, st, o, off, n, kind):
        """read n bytes at concrete offset; kind 'i','f','ptr'; returns raw value"""
        c = o.cells.get(off)
        if c is None or c[0] != n:
            ov = False
            for x in range(off-16, off+n):
                q = o.cells.get(x)
                if q is not None and x+q[0] > off: ov = True; break
            if not ov:
                if o.zero: v = NULL if kind == 'ptr' else const(0, n*8)
                elif o.kind == 'extern': v = fresh('ext', n*8)
                else: v = fresh('uninit', n*8)
                o2 = s.wobj(st, o.id) if o.own != -1 else o
                if n <= 8 or n == 16 or n == 10: o2.cells[off] = (n, v)
            else:
                # assemble from bytes/pieces
                o2 = s.wobj(st, o.id).clone(0)
                offs = sorted(s.split(o2, off, n))
                v = None; pos = off
                for x in offs + [off+n]:
                    if x > pos:
                        b = const(0, (x-pos)*8) if o.zero else fresh('uninit', (x-pos)*8)
                        v = b if v is None else concat(b, v); pos = x
                    if x < off+n:
                        b = s.tobits(o2.cells[x][1])
                        v = b if v is None else concat(b, v)
                        pos = x+o2.cells[x][0]
        else: v = c[1]
        return s.conv(v, n, kind)
    def conv(s, v, n, kind):
        if kind == 'i':
            if isinstance(v, T): return fbits(v) if v.s < 0 else v
            return p2i(v)
        if kind == 'f':
            if isinstance(v, T): return v if v.s < 0 else fofbits(trunc(v, 80) if n == 16 else v)
            return fofbits(p2i(v))
        if isinstance(v, T): return i2p(v)
        return v
    def wr(s, o, off, n, v):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            for x in s.split(o, off, n): del o.cells[x]
        o.cells[off] = (n, v)
    def check(s, st, p, n, what):
        """bounds/liveness obligations; returns list of (cond,obj,off) alternatives that are ok"""
        r = []
        for c, oid, off in alts(p):
            k = st.known(c) if c is not TRUE else True
            if k is False: continue
            if oid == 0:
                f = st.fork() if True else st
                if f.assume(c): s.oblige('mem', 'null or invalid pointer '+what, f, FALSE)
                continue
            o = s.getobj(st, oid)
            if o.kind == 'fn': raise Unsupported('access to function')
            if not o.alive:
                f = st.fork()
                if f.assume(c): s.oblige('mem', 'use after free '+what+' '+o.name, f, FALSE)
                continue
            if is_c(off) and isinstance(o.size, int):
                if off.k + n > o.size:
                    f = st.fork()
                    if f.assume(c): s.oblige('mem', 'out of bounds %s of %s (offset %d, size %d)' % (what, o.name, off.k if off.k < 1 << 63 else off.k-(1 << 64), o.size), f, FALSE)
                    continue
            else:
                size = const(o.size, 64) if isinstance(o.size, int) else o.size
                g = band(ule(const(n, 64), size), ule(off, sub(size, const(n, 64))))
                if g is not TRUE:
                    s.oblige('mem', 'bounds of %s of %s' % (what, o.name), st, bimp(c, g))
            r.append((c, oid, off))
        return r
    def cands(s, o, off, n, st):
        """concrete candidate offsets for symbolic offset"""
        if not isinstance(o.size, int): raise Unsupported('symbolic-size object')
        vals = small_values(off)
        if vals is not None:
            return [v for v in vals if v + n <= o.size]
        base, g = 0, 1
        if off.op == 'lin':
            g = 0
            for co in off.k[1]: g = math.gcd(g, co)
            g = g & -g if g & (g-1) and (1 << 64) % g else g
            base = off.k[0] % g if g else 0
        elif off.op == 'shl' and is_c(off.args[1]): g = 1 << off.args[1].k
        lo, hi = urange(off)
        lo2, hi2 = s.ctx_range(off, st)
        lo = max(lo, lo2); hi = min(hi, hi2)
        hi = min(hi, o.size-n)
        start = lo + ((base-lo) % g)
        r = list(range(start, hi+1, g))
        if len(r) > 5000: raise Unsupported('too many candidate offsets')
        return r
    def ctx_range(s, t, st):
        """range of t from simple facts on the path about its single atom"""
        lo, hi = 0, (1 << 64)-1
        if t.op == 'lin' and len(t.args) == 1:
            c, (co,) = t.k[0], t.k[1]; x = t.args[0]
        elif t.op not in ('lin',): c, co, x = 0, 1, t
        else: return lo, hi
        xlo, xhi = urange(x)
        y = x
        ws = [x]
        while y.op in ('zext',): y = y.args[0]; ws.append(y)
        for f in st.pc:
            neg_ = f.op == 'not'
            g = f.args[0] if neg_ else f
            if g.op == 'ult':
                a, b = g.args
                if not neg_:
                    if a in ws and is_c(b): xhi = min(xhi, b.k-1)
                    if b in ws and is_c(a): xlo = max(xlo, a.k+1)
                else:  # b <= a
                    if b in ws and is_c(a): xhi = min(xhi, a.k)
                    if a in ws and is_c(b): xlo = max(xlo, b.k)
        if co*xhi + c < (1 << 64): return co*xlo+c, co*xhi+c
        # maybe offset negative constant
        cs = tm.sgn(c, 64)
        if co*xlo + cs >= 0 and co*xhi + cs < 1 << 64: return co*xlo+cs, co*xhi+cs
        return lo, hi
    def load(s, st, p, n, kind):
        al = s.check(st, p, n, 'read')
        if not al: return None
        res = None
        for c, oid, off in reversed(al):
            o = s.getobj(st, oid)
            if is_c(off): v = s.rd(st, o, off.k, n, kind)
            else:
                cs = s.cands(o, off, n, st)
                if not cs: continue
                v = None
                for x in reversed(cs):
                    y = s.rd(st, s.getobj(st, oid), x, n, kind)
                    v = y if v is None else vite(eq(off, const(x, 64)), y, v)
            res = v if res is None else vite(c, v, res)
        return res
    def store(s, st, p, n, v):
        al = s.check(st, p, n, 'write')
        if not al: return False
        kind = 'ptr' if not isinstance(v, T) else 'f' if v.s < 0 else 'i'
        for c, oid, off in al:
            o = s.getobj(st, oid)
            if o.kind == 'const': raise Unsupported('write to constant '+o.name)
            o = s.wobj(st, oid)
            single = len(al) == 1
            if is_c(off):
                if single: s.wr(o, off.k, n, v)
                else:
                    old = s.rd(st, o, off.k, n, kind)
                    s.wr(s.wobj(st, oid), off.k, n, vite(c, v, old))
            else:
                for x in s.cands(o, off, n, st):
                    g = eq(off, const(x, 64))
                    if not single: g = band(c, g)
                    if g is FALSE: continue
                    old = s.rd(st, o, x, n, kind)
                    o = s.wobj(st, oid)
                    s.wr(o, x, n, vite(g, v, old))
        return True
    def memcpy(s, st, d, sp, n):
        if n == 0: return True
        if isinstance(d, Ptr) and isinstance(sp, Ptr) and is_c(d.off) and is_c(sp.off):
            if not s.check(st, sp, n, 'memcpy read'): return False
            if not s.check(st, d, n, 'memcpy write'): return False
            so = s.getobj(st, sp.obj).clone(0)
            offs = sorted(s.split(so, sp.off.k, n))
            o = s.wobj(st, d.obj)
            if o.kind == 'const': raise Unsupported('memcpy to const')
            items = [(x - sp.off.k + d.off.k,) + so.cells[x] for x in offs]
            for x in s.split(o, d.off.k, n): del o.cells[x]
            pos = d.off.k
            for x, cn, v in items + [(d.off.k+n, 0, None)]:
                if x > pos and so.zero:
                    while pos < x: o.cells[pos] = (1, const(0, 8)); pos += 1
                if cn: o.cells[x] = (cn, v); pos = x+cn
            return True
        # generic: choose word size from source cells
        w = 8
        for c, oid, off in alts(sp) + alts(d):
            if oid:
                for x, (cn, v) in list(s.getobj(st, oid).cells.items())[:4]: w = min(w, cn)
        while n % w: w //= 2
        vals = []
        for i in range(0, n, w):
            v = s.load(st, padd(sp, const(i, 64)), w, 'i')
            if v is None: return False
            vals.append(v)
        for i, v in enumerate(vals):
            if not s.store(st, padd(d, const(i*w, 64)), w, v): return False
        return True

    # ---------------------------------------------------------------- operations
    def gep(s, bt, vals, tys):
        p = vals[0]
        def idx(v, ty):
            return sext(v, 64) if v.s < 64 else trunc(v, 64)
        off = tm.mul(const(ir.size(bt) if len(vals) >= 1 and vals[1:] else 0, 64), idx(vals[1], tys[1])) if len(vals) > 1 else Z64
        t = bt
        for v, ty in zip(vals[2:], tys[2:]):
            if t.k == 's':
                i = v.k; off = add(off, const(ir.offsets(t)[i], 64)); t = t.el[i]
            else:
                off = add(off, tm.mul(const(ir.size(t.el), 64), idx(v, ty))); t = t.el
        return padd(p, off)
    def binop(s, op, a, b, ty):
        if not isinstance(a, T): a = p2i(a)
        if not isinstance(b, T): b = p2i(b)
        if a.s == 0:
            if op in ('and', 'mul'): return band(a, b)
            if op == 'or': return bor(a, b)
            if op in ('xor', 'add', 'sub'): return bxor(a, b)
            raise Unsupported('i1 '+op)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fop(op, a, b)
        if op == 'frem': return fun('fmod', (a, b), a.s)
        return _BIN[op](a, b)
    def cast(s, op, a, t0, t1):
        if op == 'trunc':
            if t1.n == 1: return bnot(eq(and_(a, const(1, a.s)), const(0, a.s)))
            return trunc(a, t1.n)
        if op == 'zext': return zext(a, t1.n)
        if op == 'sext': return sext(a, t1.n)
        if op in ('fptrunc', 'fpext'): return fconv(a, -t1.n)
        if op in ('fptoui', 'fptosi'): return ftoi(a, t1.n, op == 'fptosi')
        if op in ('uitofp', 'sitofp'):
            if a.s == 0: a = zext(a, 8)
            return itof(a, -t1.n, op == 'sitofp')
        if op == 'ptrtoint':
            r = p2i(a)
            return trunc(r, t1.n) if t1.n < 64 else zext(r, t1.n)
        if op == 'inttoptr': return i2p(zext(a, 64) if a.s < 64 else a)
        if op in ('bitcast', 'addrspacecast'):
            if t0.k == t1.k: return a
            if t0.k == 'f' and t1.k == 'i': return fbits(a)
            if t0.k == 'i' and t1.k == 'f': return fofbits(a)
        raise Unsupported('cast '+op)
    def icmp(s, pr, a, b):
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, T): a = i2p(a)
            if isinstance(b, T): b = i2p(b)
            return s.pcmp(pr, a, b)
        if a.s == 0:
            if pr == 'eq': return eq(a, b)
            if pr == 'ne': return bxor(a, b)
            a = zext(a, 8); b = zext(b, 8)
        return {'eq': eq, 'ne': lambda x, y: bnot(eq(x, y)), 'ult': ult, 'ule': ule,
                'ugt': lambda x, y: ult(y, x), 'uge': lambda x, y: ule(y, x), 'slt': slt, 'sle': sle,
                'sgt': lambda x, y: slt(y, x), 'sge': lambda x, y: sle(y, x)}[pr](a, b)
    def pcmp(s, pr, a, b):
        if pr == 'ne': return bnot(s.pcmp('eq', a, b))
        r = FALSE
        for c1, o1, f1 in alts(a):
            for c2, o2, f2 in alts(b):
                c = band(c1, c2)
                if c is FALSE: continue
                if o1 == o2: v = s.icmp(pr, f1, f2)
                elif pr == 'eq': v = FALSE
                elif o1 == 0 and is_c(f1) and f1.k == 0: v = boolc(pr in ('ult', 'ule', 'slt', 'sle'))
                elif o2 == 0 and is_c(f2) and f2.k == 0: v = boolc(pr in ('ugt', 'uge', 'sgt', 'sge'))
                else: v = s.icmp(pr, p2i(Ptr(o1, f1)), p2i(Ptr(o2, f2)))
                r = bor(r, band(c, v))
        return r
    def fcmp(s, pr, a, b):
        if pr == 'true': return TRUE
        if pr == 'false': return FALSE
        if pr == 'ord': return band(bnot(fisnan(a)), bnot(fisnan(b)))
        if pr == 'uno': return bor(fisnan(a), fisnan(b))
        o = pr[1:]; 
        if pr[0] == 'o':
            if o == 'eq': return fcmp('feq', a, b)
            if o == 'gt': return fcmp('flt', b, a)
            if o == 'ge': return fcmp('fle', b, a)
            if o == 'lt': return fcmp('flt', a, b)
            if o == 'le': return fcmp('fle', a, b)
            if o == 'ne': return bor(fcmp('flt', a, b), fcmp('flt', b, a))
        else:
            if o == 'eq': return bnot(bor(fcmp('flt', a, b), fcmp('flt', b, a)))
            if o == 'gt': return bnot(fcmp('fle', a, b))
            if o == 'ge': return bnot(fcmp('flt', a, b))
            if o == 'lt': return bnot(fcmp('fle', b, a))
            if o == 'le': return bnot(fcmp('flt', b, a))
            if o == 'ne': return bnot(fcmp('feq', a, b))
        raise Unsupported('fcmp '+pr)

    # ---------------------------------------------------------------- merging
    def merge(s, recs):
        """recs: list of (St, phivals) -> (St, phivals)"""
        if len(recs) == 1: return recs[0]
        sts = [r[0] for r in recs]
        # common pc prefix
        p0 = sts[0].pc; n = min(len(x.pc) for x in sts)
        k = 0
        while k < n and all(x.pc[k] is p0[k] for x in sts): k += 1
        com = set(x.id for x in p0[k:])
        for x in sts[1:]: com &= set(y.id for y in x.pc[k:])
        commonrest = tuple(x for x in p0[k:] if x.id in com)
        gs = [band(*[y for y in x.pc[k:] if y.id not in com]) for x in sts]
        pc = p0[:k] + commonrest
        rest = bor_simpl(gs)
        m = St(pc, {}, None)
        if not m.assume(rest): return None
        # guards for ites: last one is the default
        T0 = sts[-1].throw_ok
        for g, x in zip(gs[-2::-1], sts[-2::-1]): T0 = ite(g, x.throw_ok, T0) if x.throw_ok is not T0 else T0
        m.throw_ok = T0
        ids = set(sts[0].mem)
        for x in sts[1:]: ids |= set(x.mem)
        for i in ids:
            os = [x.mem.get(i) for x in sts]
            f = os[0]
            if all(o is f for o in os): m.mem[i] = f; continue
            if any(o is None for o in os):
                os2 = []
                for o in os:
                    if o is None: o = s.globals_mem.get(i)
                    os2.append(o)
                pres = [o for o in os2 if o is not None]
                if len(pres) < len(os2):
                    # object exists on some paths only (heap / other path): keep it
                    f = pres[0]
                    if all(o is f for o in pres): m.mem[i] = f; continue
                    os2 = [o if o is not None else pres[0] for o in os2]
                os = os2
            m.mem[i] = s.mergeobj(gs, os, m.tok)
        pv = {}
        for key in recs[0][1]:
            v = recs[-1][1][key]
            for g, r in zip(gs[-2::-1], recs[-2::-1]): v = vite(g, r[1][key], v)
            pv[key] = v
        return (m, pv)
    def mergeobj(s, gs, os, tok):
        f = os[0]
        if all(o is f for o in os): return f
        r = f.clone(tok)
        r.alive = all(o.alive for o in os)
        if any(o.alive != f.alive for o in os): r.alive = False if f.kind != 'heap' else False
        for o in os[1:]:
            if o.size is not f.size and o.size != f.size: raise Unsupported('merge object sizes')
        keys = set()
        for o in os: keys |= set(o.cells)
        # if layouts differ, normalise by splitting to common granularity
        for x in sorted(keys):
            cs = [o.cells.get(x) for o in os]
            c0 = cs[0]
            if all(c is c0 for c in cs): continue
            ns = set(c[0] for c in cs if c is not None)
            if len(ns) > 1 or (None in cs and any(o.cells.get(x) is None and s.overl(o, x, max(ns)) for o in os)):
                return s.mergeobj_bytes(gs, os, tok)
            n = next(iter(ns))
            vals = []
            for c, o in zip(cs, os):
                if c is not None: vals.append(c[1])
                elif o.zero: vals.append(const(0, 8*n))
                else: vals.append(None)
            v = vals[-1]
            if v is None: v = fresh('uninit', 8*n)
            for g, w in zip(gs[-2::-1], vals[-2::-1]):
                if w is None: w = fresh('uninit', 8*n) if isinstance(v, T) else v
                v = vite(g, w, v)
            r.cells[x] = (n, v)
        return r
    def overl(s, o, off, n):
        for x in range(off-16, off+n):
            q = o.cells.get(x)
            if q is not None and x+q[0] > off: return True
        return False
    def mergeobj_bytes(s, gs, os, tok):
        pts = set()
        cl = [o.clone(tok) for o in os]
        for o in cl:
            for x, (n, v) in o.cells.items(): pts.add(x); pts.add(x+n)
        pts = sorted(pts)
        for o in cl:
            for a, b in zip(pts, pts[1:]):
                if s.overl(o, a, 1): s.split(o, a, b-a)
        keys = set()
        for o in cl: keys |= set(o.cells)
        r = cl[0].clone(tok); r.alive = all(o.alive for o in os)
        for x in sorted(keys):
            cs = [o.cells.get(x) for o in cl]
            n = [c[0] for c in cs if c][0]
            if any(c and c[0] != n for c in cs): raise Unsupported('merge layout')
            vals = [c[1] if c else const(0, 8*n) if o.zero else fresh('uninit', 8*n) for c, o in zip(cs, cl)]
            v = vals[-1]
            for g, w in zip(gs[-2::-1], vals[-2::-1]): v = vite(g, w, v)
            r.cells[x] = (n, v)
        return r

    # ---------------------------------------------------------------- functions
    def call(s, name, args, st):
        """returns (ret value, state or None)"""
        f = s.mod.funcs.get(name)
        if len(s.stack) > 400: raise Unsupported('call depth')
        s.mod.prepare(f)
        s.funcs_seen[name] = s.funcs_seen.get(name, 0) + 1
        s.stack.append(name)
        env = {}
        for (ty, nm), v in zip(f.params, args): env[nm] = v
        act = Act(); act.f = f; act.env = env; act.pend = {}; act.rets = []; act.allocas = []
        entry = f.order[0]
        act.pend[entry] = [(st, {})]
        s.run_units(act, None)
        s.stack.pop()
        if not act.rets: return None, None
        m = s.merge(act.rets)
        if m is None: return None, None
        st, pv = m
        for oid in act.allocas: st.mem.pop(oid, None)
        return pv.get('ret'), st
    def run_units(s, act, scope):
        pend = act.pend
        for b, isloop in act.f.plan[scope]:
            if b not in pend: continue
            if isloop and b != scope: s.run_loop(act, b)
            else:
                recs = pend.pop(b)
                m = s.merge(recs)
                if m is None: continue
                st, pv = m
                act.env.update(pv)
                s.exec_block(act, act.f.blocks[b], st)
    def run_loop(s, act, h):
        key = (act.f.name, h)
        pend = act.pend
        if key in s.inv_loops:
            return s.loop_inv(act, h)
        it = 0
        base = None
        nsym = 0; force = None; decided = False
        while h in pend:
            recs = pend.pop(h)
            m = s.merge(recs)
            if m is None: return
            st, pv = m
            if base is None: base = len(st.pc); basepc = st.pc
            symbolic = len(st.pc) != base or st.pc != basepc
            if symbolic:
                basepc = st.pc; base = len(st.pc)
                nsym += 1
                if force is None:
                    dn = s.dem(act.f.name)
                    force = any(re.search(r, dn) for r in s.force_inv)
                if force and decided and nsym >= s.opts.get('force_after', 0): raise NeedInvariant(key)
                if nsym > 12 and nsym % s.opts.get('feas_every', 6) == 0 or nsym > s.opts['max_unroll']:
                    if not s.feasible(st.pc): return
                    if nsym > s.opts['max_unroll']: raise NeedInvariant(key)
            it += 1
            if it > s.opts['max_iter']: raise NeedInvariant(key)
            pend[h] = [(st, pv)]
            n0 = sum(len(v) for b, v in pend.items() if b != h) + len(act.rets)
            s.run_units(act, h)
            # a loop is abstracted only once an iteration both left the loop and continued
            if h in pend and sum(len(v) for b, v in pend.items() if b != h) + len(act.rets) > n0: decided = True

    # ---- loops by invariant
    def loop_inv(s, act, h):
        pend = act.pend
        m = s.merge(pend.pop(h))
        if m is None: return
        st0, pv0 = m
        saved_env = dict(act.env)
        dn = s.dem(act.f.name)
        uinvs = [(fp, ctx) for r, fp, ctx, soft in s.invs if not soft and re.search(r, dn)]
        softs = [(fp, ctx) for r, fp, ctx, soft in s.invs if soft and re.search(r, dn)]
        outer = {k: v for k, v in pend.items()}
        def body(st, pv):
            """one iteration; returns (backedge recs, exit pend)"""
            act.env = dict(saved_env); act.pend = {h: [(st, pv)]}; r0 = act.rets; act.rets = []
            s.run_units(act, h)
            back = act.pend.pop(h, [])
            ex = act.pend; rets = act.rets
            act.pend = pend; act.rets = r0
            return back, ex, rets
        # 1. modified set
        modcells = {}   # (obj, off) -> n
        k = fresh('k', 64)
        hphi = {}
        for nm, v in pv0.items(): hphi[nm] = s.havocval(v, nm)
        def havoc_state():
            st = st0.fork()
            for (oid, off), n in modcells.items():
                if oid not in st.mem and oid not in s.globals_mem: continue
                o = s.wobj(st, oid)
                c = o.cells.get(off)
                if c is None or c[0] != n:
                    for x in s.split(o, off, n): del o.cells[x]
                    o.cells[off] = (n, hcell[(oid, off)])
                else: o.cells[off] = (n, hcell[(oid, off)])
            return st
        hcell = {}
        s.quiet += 1
        nobj0 = s.nobj
        for rnd in range(12):
            st = havoc_state()
            snap = dict(st.mem); st.tok = newtok()
            back, ex, rets = body(st, dict(hphi))
            changed = False
            for bst, _ in back:
                for oid, o in bst.mem.items():
                    b = snap.get(oid) or s.globals_mem.get(oid)
                    if b is o or b is None: continue
                    for off, (n, v) in o.cells.items():
                        q = b.cells.get(off)
                        if q is not None and q[0] == n and q[1] is v: continue
                        if q is None and b.zero and isinstance(v, T) and is_c(v) and v.k == 0: continue
                        if (oid, off) not in modcells:
                            iv = q[1] if q is not None and q[0] == n else None
                            modcells[(oid, off)] = n; changed = True
                            hcell[(oid, off)] = s.havocval(iv if iv is not None else v, 'm')
                    if o.alive != b.alive: raise Unsupported('loop frees object')
            if not changed: break
        else: raise Unsupported('loop modset')
        s.quiet -= 1
        if not back:
            # body never loops: ordinary
            pend[h] = [(st0, pv0)]
            s.inv_loops.discard((act.f.name, h))
            try:
                act.env = saved_env
                s.run_loop(act, h)
            finally: s.inv_loops.add((act.f.name, h))
            return
        # 2. candidates
        init = {}
        for nm, v in pv0.items(): init[nm] = v
        for (oid, off), n in modcells.items():
            o = st0.mem.get(oid) or s.globals_mem.get(oid)
            c = o.cells.get(off) if o else None
            if c is not None and c[0] == n: init[(oid, off)] = c[1]
            elif o is not None and o.zero: init[(oid, off)] = const(0, 8*n)
        hv = dict(hphi); hv.update(hcell)
        cands = []
        bm = s.merge([(x.fork(), dict(p)) for x, p in back])
        if bm is None: back = []
        def backval(bst, bpv, key):
            if isinstance(key, str): return bpv[key]
            o = bst.mem.get(key[0])
            c = o.cells.get(key[1]) if o else None
            return c[1] if c is not None and c[0] == modcells[key] else None
        if bm:
            for key, i0 in init.items():
                h0 = hv[key]; b0 = backval(bm[0], bm[1], key)
                if isinstance(h0, Ptr) and isinstance(i0, Ptr) and isinstance(b0, Ptr):
                    if i0.obj == h0.obj == b0.obj: h0, i0, b0 = h0.off, i0.off, b0.off
                    else: raise Unsupported('pointer changes object in loop')
                elif isinstance(h0, (Ptr, MPtr)): raise Unsupported('pointer in loop')
                if not (isinstance(h0, T) and isinstance(i0, T) and isinstance(b0, T)): continue
                if h0.s <= 0 or i0.s != h0.s or b0.s != h0.s:
                    if h0.s <= 0 and i0.s == h0.s: cands.append((eq(h0, i0), key, 'same'))
                    continue
                d = sub(b0, h0)
                kk = trunc(k, h0.s) if h0.s < 64 else zext(k, h0.s)
                if is_c(d):
                    cands.append((eq(h0, add(i0, tm.mul(d, kk))), key, 'affine'))
                else: cands.append((eq(h0, i0), key, 'same'))
                cands.append((ule(h0, i0), key, 'le'))
                cands.append((ule(i0, h0), key, 'ge'))
            # values that start equal may stay equal (ghost copy of a program variable)
            byi = {}
            for key, i0 in init.items():
                h0 = hv[key]
                if isinstance(h0, T) and isinstance(i0, T) and h0.op == 'v' and 8 <= h0.s <= 128 and i0.s == h0.s:
                    byi.setdefault(('c', i0.k) if is_c(i0) else ('t', i0.id), []).append((key, h0))
            npair = 0
            for grp in byi.values():
                for a in range(len(grp)):
                    for b in range(a):
                        if npair >= 40: break
                        x, y = grp[a][1], grp[b][1]
                        if x.s < y.s: x, y = y, x
                        cands.append((eq(x, zext(y, x.s) if y.s < x.s else y), grp[a][0], 'pair')); npair += 1
            if s.opts.get('allpairs'):
                phis = [(key, hv[key]) for key in init if isinstance(key, str) and isinstance(hv[key], T) and hv[key].op == 'v' and 8 <= hv[key].s <= 128]
                mems = [(key, hv[key]) for key in init if not isinstance(key, str) and isinstance(hv[key], T) and hv[key].op == 'v' and 8 <= hv[key].s <= 128]
                for ka, x in phis:
                    for kb, y in mems:
                        if init[ka].s == x.s and init[kb].s == y.s and npair < 80:
                            u, w = (x, y) if x.s >= y.s else (y, x)
                            c = eq(u, zext(w, u.s) if w.s < u.s else w)
                            if not any(q[0] is c for q in cands): cands.append((c, ka, 'pair')); npair += 1
        # bounds suggested by the comparisons the body branches on
        hids = {}
        for key, v in hv.items():
            t = v.off if isinstance(v, Ptr) else v
            if isinstance(t, T) and t.op == 'v' and t.s > 0: hids[t.id] = (t, key)
        seenc = set()
        pcs = [x.pc for x, p in back] + [x[0].pc for recs in ex.values() for x in recs]
        for pc in pcs:
            for cnd in pc[len(st0.pc):]:
                if cnd.id in seenc: continue
                seenc.add(cnd.id)
                for t in subterms([cnd]):
                    if t.op not in ('ult', 'slt', 'eq') or t.args[0].s <= 0: continue
                    for a, b in (t.args, t.args[::-1]):
                        if a.id in hids and not any(z.id in hids or z is k for z in subterms([b])):
                            g = (sle if t.op == 'slt' else ule)
                            cands.append((g(a, b), hids[a.id][1], 'bound')); cands.append((g(b, a), hids[a.id][1], 'bound'))
        cands = [c for c in cands if c[0] is not TRUE and c[0] is not FALSE]
        hmap = {}
        def inst(c, vals, kv):
            m = {k.id: kv}
            for key, v in vals.items():
                hh = hv[key]
                if isinstance(hh, Ptr): hh, v = hh.off, (v.off if isinstance(v, Ptr) else v)
                if isinstance(hh, T) and isinstance(v, T) and hh.op == 'v' and v.s == hh.s: m[hh.id] = v
            return subst([c], m)[0]
        # init check
        def prove(pc, g):
            if g is TRUE: return True
            return not s.feasible(pc + (bnot(g),), strict=True)
        cands = [c for c in cands if prove(st0.pc, inst(c[0], init, Z64))]
        def uinv(st, kv, assume, label):
            for fp, ctx in uinvs:
                f = st.fork()
                s.quiet += 1 if assume else 0
                r, f2 = s.invoke_fn(fp, [ctx, kv], f)
                s.quiet -= 1 if assume else 0
                if r is None: raise Unsupported('invariant evaluation')
                r = tobool(r)
                if assume:
                    # facts established inside the evaluation (pc of f2) do not leak
                    if not st.assume(r): return False
                else: s.oblige('inv', 'loop invariant %s (%s)' % (label, dn[:80]), f2, r)
            return True
        def softval(st, kv, fp, ctx):
            f = st.fork(); s.quiet += 1
            r, f2 = s.invoke_fn(fp, [ctx, kv], f); s.quiet -= 1
            if r is None: raise Unsupported('invariant evaluation')
            return tobool(r)
        softs = [(fp, ctx) for fp, ctx in softs if prove(st0.pc, softval(st0, Z64, fp, ctx))]
        s_init = st0.fork()
        uinv(s_init, Z64, False, 'initially')
        for rnd in range(20):
            s.quiet += 1
            st = havoc_state(); alive = True
            for c in cands:
                if not st.assume(c[0]): alive = False
            if alive: alive = uinv(st, k, True, '')
            for fp, ctx in softs:
                if alive: alive = st.assume(softval(st, k, fp, ctx)) is not False
            if not alive: s.quiet -= 1; break
            back, ex, rets = body(st, dict(hphi))
            s.quiet -= 1
            bm = s.merge([(x, dict(p)) for x, p in back]) if back else None
            if bm is None: break
            bst, bpv = bm
            vals = {}
            for key in hv:
                bv = backval(bst, bpv, key)
                if bv is None: raise Unsupported('loop cell layout')
                vals[key] = bv
            keep = []
            for c in cands:
                g = inst(c[0], vals, add(k, const(1, 64)))
                if prove(bst.pc, g): keep.append(c)
            ksoft = [(fp, ctx) for fp, ctx in softs if all(prove(b.pc, softval(b, add(k, const(1, 64)), fp, ctx)) for b, _ in back)]
            if len(keep) == len(cands) and len(ksoft) == len(softs): break
            cands = keep; softs = ksoft
        else: raise Unsupported('loop invariants did not stabilise')
        # 3. final pass, recording obligations
        st = havoc_state(); alive = True
        for c in cands:
            if not st.assume(c[0]): alive = False
        if alive: alive = uinv(st, k, True, '')
        for fp, ctx in softs:
            if alive: alive = st.assume(softval(st, k, fp, ctx)) is not False
        if not alive: raise Unsupported('invariant contradictory at loop head')
        back, ex, rets = body(st, dict(hphi))
        for bst, bpv in back:
            b2 = bst.fork()
            uinv(b2, add(k, const(1, 64)), False, 'preserved')
        if not s.quiet:
            s.inv_report.append('%s: %d havocked values, invariants %s%s' % (dn[:100], len(hv), sorted(set(c[2] for c in cands)), ' + user' if uinvs else ''))
        for b, recs in ex.items(): pend.setdefault(b, []).extend(recs)
        act.rets.extend(rets)
        act.env = act.env
    def havocval(s, v, nm):
        if isinstance(v, T): return fresh('h', v.s)
        if isinstance(v, Ptr): return Ptr(v.obj, fresh('hp', 64))
        raise Unsupported('havoc of %r' % (v,))

    def invoke_fn(s, fp, args, st):
        assert isinstance(fp, Ptr)
        nm = s.globals_mem[fp.obj].name
        return s.docall(nm, args, [None]*len(args), None, st)

    # ---------------------------------------------------------------- blocks
    def val(s, act, v, ty):
        if v[0] == 'r':
            try: return act.env[v[1]]
            except KeyError: raise Unsupported('undefined value %s in %s' % (v[1], act.f.name))
        return s.cval(v, ty)
    def edge(s, act, b, tgt, st):
        blk = act.f.blocks[tgt]
        pv = {}
        for ph in blk.phis:
            pv[ph.res] = s.val(act, ph.x[b.name], ph.ty)
        act.pend.setdefault(tgt, []).append((st, pv))
    def is_trap(s, f, bn):
        b = f.blocks[bn]
        i = b.ins[0]
        return i.op == 'call' and i.x['callee'][0] == 'g' and i.x['callee'][1] in ('@llvm.ubsantrap', '@llvm.trap')
    def exec_block(s, act, b, st):
        env = act.env; f = act.f
        for i in b.ins:
            s.steps += 1
            op = i.op
            if s.steps & 4095 == 0:
                if s.steps > s.opts['steps']: raise Budget('step budget')
                if s.deadline and time.time() > s.deadline: raise Budget('execution time budget')
            if op == 'load':
                p = s.val(act, i.a[0], ir.PTR)
                ty = i.ty
                if ty.k in ('s', 'a'):
                    v = s.load_agg(st, p, ty)
                else:
                    n = ir.size(ty)
                    v = s.load(st, p, n, ty.k)
                    if v is None: return
                    if ty.k == 'i':
                        if ty.n == 1: v = bnot(eq(and_(v, const(1, v.s)), const(0, v.s)))
                        elif v.s != ty.n: v = trunc(v, ty.n)
                if v is None: return
                env[i.res] = v
            elif op == 'store':
                v = s.val(act, i.a[0], i.ty); p = s.val(act, i.a[1], ir.PTR)
                if i.ty.k in ('s', 'a'):
                    if not s.store_agg(st, p, i.ty, v): return
                else:
                    if i.ty.k == 'i':
                        n = ir.size(i.ty)*8
                        if v.s != n: v = zext(v, n)
                    if not s.store(st, p, ir.size(i.ty), v): return
            elif op == 'getelementptr':
                env[i.res] = s.gep(i.ty, [s.val(act, v, t) for v, t in zip(i.a, i.x)], i.x)
            elif op in ir.BIN:
                x = s.val(act, i.a[0], i.ty); y = s.val(act, i.a[1], i.ty)
                if op in ('sdiv', 'srem') and isinstance(x, T) and isinstance(y, T) and not (is_c(x) and is_c(y)) and st.nonneg(x) and st.nonneg(y): op = 'u' + op[1:]
                env[i.res] = s.binop(op, x, y, i.ty)
            elif op == 'icmp':
                x = s.val(act, i.a[0], i.ty); y = s.val(act, i.a[1], i.ty); pr = i.x
                if pr[0] == 's' and isinstance(x, T) and isinstance(y, T) and not (is_c(x) and is_c(y)) and st.nonneg(x) and st.nonneg(y): pr = 'u' + pr[1:]
                env[i.res] = s.icmp(pr, x, y)
            elif op in ir.CAST:
                x = s.val(act, i.a[0], i.x)
                env[i.res] = s.cast('zext' if op == 'sext' and isinstance(x, T) and x.op != 'c' and st.nonneg(x) else op, x, i.x, i.ty)
            elif op == 'br':
                if not i.a:
                    s.edge(act, b, i.x[0], st); return
                c = s.val(act, i.a[0], ir.INT(1))
                k = st.known(c)
                if k is not None:
                    s.edge(act, b, i.x[0] if k else i.x[1], st); return
                t0, t1 = i.x
                if t0 == t1: s.edge(act, b, t0, st); return
                for tt, oth, cc in ((t0, t1, c), (t1, t0, bnot(c))):
                    if s.is_trap(f, tt):
                        s.oblige('ub', s.trapname(f, tt), st, bnot(cc))
                        if not s.opts.get('keep_ub'): pass
                        s.edge(act, b, oth, st); return
                st2 = st.fork()
                if st.assume(c): s.edge(act, b, t0, st)
                if st2.assume(bnot(c)): s.edge(act, b, t1, st2)
                return
            elif op in ('call', 'invoke'):
                callee = i.x['callee']
                tys = i.x['tys']
                args = [None if t.k == 'meta' else s.val(act, v, t) for v, t in zip(i.a, tys)]
                if callee[0] == 'g': nm = callee[1]
                else:
                    p = s.val(act, callee, ir.PTR)
                    al = [x for x in alts(p)]
                    if len(al) != 1: raise Unsupported('indirect call')
                    nm = s.globals_mem[al[0][1]].name
                r, st = s.docall(nm, args, tys, i.ty, st)
                if st is None: return
                if i.res is not None:
                    if r is None: raise Unsupported('no value from '+nm)
                    env[i.res] = r
                if op == 'invoke':
                    s.edge(act, b, i.x['normal'], st); return
            elif op == 'alloca':
                n = ir.size(i.ty)
                if i.x:
                    c = s.val(act, i.x[1], i.x[0])
                    if not is_c(c): raise Unsupported('vla')
                    n *= c.k
                o = s.newobj(st, n, 'alloca', (i.res or '')[1:])
                act.allocas.append(o.id)
                env[i.res] = Ptr(o.id, Z64)
            elif op == 'select':
                c = s.val(act, i.a[0], ir.INT(1))
                k = st.known(c)
                x = s.val(act, i.a[1], i.ty) if k is not False else None
                y = s.val(act, i.a[2], i.ty) if k is not True else None
                env[i.res] = x if k is True else y if k is False else vite(c, x, y)
            elif op == 'ret':
                act.rets.append((st, {'ret': s.val(act, i.a[0], i.ty)} if i.a else {}))
                return
            elif op == 'unreachable':
                s.oblige('ub', 'unreachable code reached', st, FALSE)
                return
            elif op == 'fcmp':
                env[i.res] = s.fcmp(i.x, s.val(act, i.a[0], i.ty), s.val(act, i.a[1], i.ty))
            elif op == 'fneg':
                env[i.res] = fop('fneg', s.val(act, i.a[0], i.ty))
            elif op == 'freeze': env[i.res] = s.val(act, i.a[0], i.ty)
            elif op == 'extractvalue':
                v = s.val(act, i.a[0], i.ty)
                for x in i.x: v = v[x]
                env[i.res] = v
            elif op == 'insertvalue':
                v = s.val(act, i.a[0], i.ty)
                w = s.val(act, i.a[1], None) if i.a[1][0] == 'r' else s.cval(i.a[1], s.agg_ty(i.ty, i.x))
                def ins(v, idx):
                    if not idx: return w
                    v = Agg(v); v[idx[0]] = ins(v[idx[0]], idx[1:]); return v
                env[i.res] = ins(v, i.x)
            elif op == 'switch':
                v = s.val(act, i.a[0], i.ty)
                if is_c(v):
                    for cv, t in i.x[1]:
                        if const(cv, v.s) is v: s.edge(act, b, t, st); return
                    s.edge(act, b, i.x[0], st); return
                dest = {}
                rest = TRUE
                for cv, t in i.x[1]:
                    c = eq(v, const(cv, v.s))
                    dest[t] = bor(dest.get(t, FALSE), c); rest = band(rest, bnot(c))
                dest[i.x[0]] = bor(dest.get(i.x[0], FALSE), rest)
                for t, c in dest.items():
                    f2 = st.fork()
                    if f2.assume(c): s.edge(act, b, t, f2)
                return
            elif op == 'fence': pass
            else: raise Unsupported('instruction %s %s' % (op, i.x))
        raise Unsupported('fell off block')
    def agg_ty(s, ty, idx):
        for x in idx: ty = ty.el[x] if ty.k == 's' else ty.el
        return ty
    def load_agg(s, st, p, ty):
        r = Agg()
        if ty.k == 's': it = list(zip(ir.offsets(ty), ty.el))
        else: it = [(j*ir.size(ty.el), ty.el) for j in range(ty.n)]
        for off, e in it:
            q = padd(p, const(off, 64))
            if e.k in ('s', 'a'): v = s.load_agg(st, q, e)
            else:
                v = s.load(st, q, ir.size(e), e.k)
                if v is not None and e.k == 'i':
                    if e.n == 1: v = bnot(eq(and_(v, const(1, v.s)), const(0, v.s)))
                    elif v.s != e.n: v = trunc(v, e.n)
            if v is None: return None
            r.append(v)
        return r
    def store_agg(s, st, p, ty, v):
        if ty.k == 's': it = list(zip(ir.offsets(ty), ty.el))
        else: it = [(j*ir.size(ty.el), ty.el) for j in range(ty.n)]
        for (off, e), x in zip(it, v):
            q = padd(p, const(off, 64))
            if e.k in ('s', 'a'):
                if not s.store_agg(st, q, e, x): return False
            else:
                if e.k == 'i' and x.s != ir.size(e)*8: x = zext(x, ir.size(e)*8)
                if not s.store(st, q, ir.size(e), x): return False
        return True
    def trapname(s, f, bn):
        k = f.blocks[bn].ins[0].a
        code = k[0][1] & 255 if k else -1
        return 'undefined behaviour: ' + UBSAN.get(code, 'check %d' % code)

    # ---------------------------------------------------------------- calls
    def docall(s, nm, args, tys, rty, st):
        import builtins_vf as bv
        if s.repl_rec and not nm.startswith('@vf_') and not nm.startswith('@llvm.'):
            for rx, fp in s.repl_rec:
                if re.search(rx, s.dem(nm)) and any(re.search(rx, s.dem(f)) for f in s.stack):
                    tn = s.globals_mem[fp.obj].name
                    if tn != nm:
                        s.trusted.add('recursive call of %s replaced by its contract' % s.dem(nm)[:100])
                        return s.docall(tn, args, tys, rty, st)
        if s.repl and not nm.startswith('@vf_') and not nm.startswith('@llvm.'):
            r = s.replcache.get(nm, 0)
            if r == 0:
                dn = s.dem(nm); r = None
                for rx, fp in s.repl:
                    if re.search(rx, dn) and fp.obj != -1:
                        tn = s.globals_mem[fp.obj].name
                        if tn != nm and nm not in s.stack_no_repl(tn): r = tn
                s.replcache[nm] = r
            if r is not None and r not in s.stack:
                return s.call(r, args, st)
        h = bv.find(nm, s)
        if h is not None: return h(s, nm, args, tys, rty, st)
        if nm in s.mod.funcs: return s.call(nm, args, st)
        raise Unsupported('external function %s' % s.dem(nm))
    def stack_no_repl(s, tn): return ()

class Act:
    __slots__ = ('f', 'env', 'pend', 'rets', 'allocas')

def padd(p, off):
    if off.op == 'c' and off.k == 0: return p
    if isinstance(p, Ptr): return Ptr(p.obj, add(p.off, off))
    return MPtr([(c, o, add(f, off)) for c, o, f in alts(p)])
def tobool(r):
    if r.s == 0: return r
    return bnot(eq(r, const(0, r.s)))
def small_values(t, lim=64):
    """set of constants t can be, if it is an ite tree over constants"""
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'c': out.add(x.k)
        elif x.op == 'ite': st.extend(x.args[1:])
        else: return None
        if len(out) > 2000: return None
    return sorted(out)
def bor_simpl(gs):
    """or of guards with the complementary-pair rule  (p&c)|(p&!c) = p"""
    r = []
    for g in gs: r.append(set(x.id for x in (g.args if g.op == 'and_' else (g,))) if g is not TRUE else set())
    byid = {}
    for g in gs:
        for x in (g.args if g.op == 'and_' else (g,)): byid[x.id] = x
    if any(not x for x in r): return TRUE
    ch = True
    while ch and len(r) > 1:
        ch = False
        for i in range(len(r)):
            for j in range(i+1, len(r)):
                a, b = r[i], r[j]
                d1 = a - b; d2 = b - a
                if not d1 or not d2:
                    r = [x for n, x in enumerate(r) if n not in (i, j)] + [a & b]; ch = True; break
                if len(d1) == 1 and len(d2) == 1:
                    x, = d1; y, = d2
                    if bnot(byid[x]) is byid[y]:
                        r = [z for n, z in enumerate(r) if n not in (i, j)] + [a & b]; ch = True; break
                # (p & c & q) | (p & !c) = p & (q | !c)
                if len(d2) == 1:
                    y, = d2; ny = bnot(byid[y])
                    if ny.id in d1:
                        pass
            if ch: break
        if any(not x for x in r): return TRUE
    gs2 = [band(*[byid[i] for i in sorted(x)]) for x in r]
    # nested: g1 = c1, g2 = !c1 & c2, g3 = !c1 & !c2 ... handled by absorption below
    res = bor(*gs2)
    if res.op == 'or_' and len(res.args) <= 40:
        # unit absorption: literal l in or, remove !l inside other conjunctions
        lits = {x.id: x for x in res.args if x.op not in ('and_',)}
        ch = True
        xs = list(res.args)
        while ch:
            ch = False
            ls = {bnot(x).id for x in xs if x.op != 'and_'}
            ys = []
            for x in xs:
                if x.op == 'and_':
                    n = [y for y in x.args if y.id not in ls]
                    if len(n) != len(x.args):
                        x = band(*n); ch = True
                ys.append(x)
            xs = ys
            r2 = bor(*xs)
            if r2.op != 'or_': return r2
            xs = list(r2.args)
        res = bor(*xs)
    return res
UBSAN = {0: 'add overflow', 1: 'builtin unreachable', 2: 'cfi', 3: 'division overflow / by zero', 4: 'dynamic type', 5: 'float cast overflow', 6: 'function type',
         7: 'implicit conversion', 8: 'invalid builtin', 9: 'invalid objc', 10: 'load of invalid value', 11: 'missing return', 12: 'multiplication overflow', 13: 'negation overflow',
         14: 'nullability', 15: 'nullability return', 16: 'nonnull arg', 17: 'nonnull return', 18: 'out of bounds', 19: 'pointer overflow', 20: 'shift out of bounds', 21: 'subtraction overflow', 22: 'type mismatch'}
_BIN = dict(add=add, sub=sub, mul=tm.mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr)
_BIN['and'] = and_; _BIN['or'] = or_; _BIN['xor'] = xor
