"""Contract primitives (vf_*), LLVM intrinsics and external functions."""
import re, math
import ir
from terms import *
import terms as tm
import exec as E

def cstr(ex, p):
    o = ex.globals_mem[p.obj]; i = p.off.k; r = bytearray()
    while True:
        c = o.cells.get(i)
        if c is None or c[1].k == 0: break
        r.append(c[1].k); i += 1
    return r.decode()

H = {}
def reg(*names):
    def d(f):
        for n in names: H['@'+n] = f
        return f
    return d
RX = []
def regx(rx):
    def d(f): RX.append((re.compile(rx), f)); return f
    return d
cache = {}
def find(nm, ex):
    h = cache.get(nm, 0)
    if h == 0:
        h = H.get(nm)
        if h is None:
            for r, f in RX:
                if r.match(nm[1:].strip('"')): h = f; break
        cache[nm] = h
    if h is not None and nm in ex.mod.funcs and getattr(h, 'ext_only', False): return None
    return h

# ------------------------------------------------------------- contract primitives
def _nd(sort):
    def h(ex, nm, args, tys, rty, st):
        name = cstr(ex, args[0]); idx = args[1]
        if is_c(idx):
            v = var('%s[%d]' % (name, idx.k), sort)
            ex.nd[v.k] = sort
        else: v = fun('nd:%s:%d' % (name, sort), (idx,), sort)
        return v, st
    return h
H['@vf_nd8'] = _nd(8); H['@vf_nd16'] = _nd(16); H['@vf_nd32'] = _nd(32); H['@vf_nd64'] = _nd(64)
H['@vf_ndf64'] = _nd(-64); H['@vf_ndf32'] = _nd(-32); H['@vf_ndbool'] = _nd(0)
def _in(n, signed):
    def h(ex, nm, args, tys, rty, st):
        name = cstr(ex, args[0]); idx = args[1]; lo, hi = args[2], args[3]
        if is_c(idx):
            v = var('%s[%d]' % (name, idx.k), n); ex.nd[v.k] = n
        else: v = fun('nd:%s:%d' % (name, n), (idx,), n)
        le = sle if signed else ule
        ok = st.assume(band(le(lo, v), le(v, hi)))
        return v, (st if ok else None)
    return h
H['@vf_in64'] = _in(64, False); H['@vf_in32'] = _in(32, False)
H['@vf_sin64'] = _in(64, True); H['@vf_sin32'] = _in(32, True)
@reg('vf_assume')
def _(ex, nm, args, tys, rty, st):
    return None, (st if st.assume(E.tobool(args[0])) else None)
@reg('vf_assert')
def _(ex, nm, args, tys, rty, st):
    c = E.tobool(args[0]); name = cstr(ex, args[1])
    ex.oblige('assert', name, st, TRUE if st.known(c) else c)
    ex.nassert = getattr(ex, 'nassert', 0) + 1
    if ex.opts.get('assert_assume', True):
        if not st.assume(c): return None, None
    return None, st
@reg('vf_check')
def _(ex, nm, args, tys, rty, st):   # assert without assuming afterwards
    c = E.tobool(args[0]); name = cstr(ex, args[1])
    ex.oblige('assert', name, st, TRUE if st.known(c) else c)
    return None, st
def _cut(ex, nm, args, tys, rty, st):
    # obligation a == b; from here on memory cells holding the value a hold b
    a, b, name = args[0], args[1], cstr(ex, args[2])
    c = eq(a, b) if a.s > 0 else fcmp('feq', a, b)
    ex.oblige('assert', name, st, TRUE if st.known(c) else c)
    ex.nassert = getattr(ex, 'nassert', 0) + 1
    if a is b or is_c(a): return None, st
    for oid in list(st.mem):
        o = st.mem[oid]; w = None
        if not isinstance(oid, int): continue
        for off, (n, v) in list(o.cells.items()):
            if not isinstance(v, T): continue
            if v is a: nv = b
            elif a.s > 0 and 0 < v.s < a.s and not is_c(v) and zext(v, a.s) is a: nv = trunc(b, v.s)
            else: continue
            if w is None: w = ex.wobj(st, oid)
            w.cells[off] = (n, nv)
    return None, st
H['@vf_cut64'] = H['@vf_cutf64'] = H['@vf_cutf32'] = _cut
@reg('vf_cover')
def _(ex, nm, args, tys, rty, st):
    n = cstr(ex, args[0])
    if not ex.quiet: ex.covers.setdefault(n, []).append(st.pc)
    return None, st
@reg('vf_uf64')
def _(ex, nm, args, tys, rty, st):
    name = cstr(ex, args[0]); n = args[1].k
    return fun('uf:%s/%d' % (name, n), tuple(args[2:2+n]), 64), st
@reg('vf_replace')
def _(ex, nm, args, tys, rty, st):
    ex.repl.append((cstr(ex, args[0]), args[1])); ex.replcache = {}
    return None, st
@reg('vf_replace_rec')
def _(ex, nm, args, tys, rty, st):
    ex.repl_rec.append((cstr(ex, args[0]), args[1])); return None, st
@reg('vf_loop_inv')
def _(ex, nm, args, tys, rty, st):
    ex.invs.append((cstr(ex, args[0]), args[1], args[2], False))
    ex.force_inv.append(cstr(ex, args[0]))
    return None, st
@reg('vf_loop_cand')
def _(ex, nm, args, tys, rty, st):
    ex.invs.append((cstr(ex, args[0]), args[1], args[2], True)); return None, st
@reg('vf_loop_abstract')
def _(ex, nm, args, tys, rty, st):
    ex.force_inv.append(cstr(ex, args[0])); return None, st
@reg('vf_clear')
def _(ex, nm, args, tys, rty, st):
    ex.repl = []; ex.replcache = {}; ex.invs = []; ex.force_inv = []
    return None, st
@reg('vf_unroll')
def _(ex, nm, args, tys, rty, st):
    ex.opts['max_unroll'] = args[0].k; return None, st
@reg('vf_throw_ok')
def _(ex, nm, args, tys, rty, st):
    st.throw_ok = E.tobool(args[0]); return None, st
@reg('vf_havoc')
def _(ex, nm, args, tys, rty, st):
    p, n = args
    lo = p.off.k; hi = lo + n.k
    o = ex.wobj(st, p.obj)
    ex.split(o, lo, n.k)
    for x in sorted(o.cells):
        if lo <= x < hi:
            cn, v = o.cells[x]
            if isinstance(v, T): o.cells[x] = (cn, fresh('hv', v.s))
    return None, st
@reg('vf_symbolic')
def _(ex, nm, args, tys, rty, st): return TRUE if rty.n == 1 else const(1, rty.n), st
@reg('vf_print')
def _(ex, nm, args, tys, rty, st):
    print('vf_print', cstr(ex, args[0]), args[1]); return None, st

# ------------------------------------------------------------- throw / abort
def do_throw(ex, st, what):
    if st.throw_ok is not TRUE:
        ex.oblige('throw', 'exception %s only where allowed' % what, st, st.throw_ok)
    ex.covers.setdefault('throw', []).append(st.pc) if not ex.quiet else None
    return None, None
@reg('__cxa_throw')
def _(ex, nm, args, tys, rty, st): return do_throw(ex, st, 'thrown')
@regx(r'_ZN5boost15throw_exception|_ZN5boost16throw_exception_')
def _(ex, nm, args, tys, rty, st): return do_throw(ex, st, 'thrown')
@regx(r'_ZSt\d+__throw_\w+')
def _(ex, nm, args, tys, rty, st): return do_throw(ex, st, ex.dem(nm))
@reg('__cxa_allocate_exception')
def _(ex, nm, args, tys, rty, st):
    o = ex.newobj(st, args[0].k, 'heap', 'exception'); return E.Ptr(o.id, E.Z64), st
@regx(r'_ZNSt\d+(invalid_argument|range_error|overflow_error|runtime_error|out_of_range|length_error|logic_error)[CD]')
def _(ex, nm, args, tys, rty, st): return None, st
@reg('__cxa_free_exception', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit')
def _(ex, nm, args, tys, rty, st): return (const(0, 32) if rty and rty.k == 'i' else None), st
@reg('__cxa_guard_acquire')
def _(ex, nm, args, tys, rty, st):
    # first byte of the guard: 0 -> run initialiser
    v = ex.load(st, args[0], 1, 'i')
    if is_c(v) and v.k: return const(0, 32), st
    ex.store(st, args[0], 1, const(1, 8))
    return const(1, 32), st
@reg('__assert_fail')
def _(ex, nm, args, tys, rty, st):
    ex.oblige('assertion', 'internal assertion: ' + cstr(ex, args[0]), st, FALSE); return None, None
@reg('abort', '_ZSt9terminatev', '__clang_call_terminate', 'llvm.trap', 'exit')
def _(ex, nm, args, tys, rty, st):
    ex.oblige('assertion', 'abort reached', st, FALSE); return None, None
@reg('llvm.ubsantrap')
def _(ex, nm, args, tys, rty, st):
    ex.oblige('ub', 'undefined behaviour', st, FALSE); return None, None

# ------------------------------------------------------------- memory
@reg('_Znwm', '_Znam', 'malloc')
def _(ex, nm, args, tys, rty, st):
    n = args[0]
    o = ex.newobj(st, n.k if is_c(n) else n, 'heap', 'heap'); return E.Ptr(o.id, E.Z64), st
@reg('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def _(ex, nm, args, tys, rty, st):
    for c, oid, off in E.alts(args[0]):
        if oid == 0 or c is FALSE: continue
        if c is TRUE or st.known(c):
            o = ex.getobj(st, oid)
            if o.kind != 'heap': ex.oblige('mem', 'free of non-heap', st, FALSE)
            if not o.alive: ex.oblige('mem', 'double free', st, FALSE)
            o = ex.wobj(st, oid); o.alive = False; o.cells = {}
    return None, st
@regx(r'llvm\.memcpy|llvm\.memmove|memcpy$|memmove$')
def _(ex, nm, args, tys, rty, st):
    n = args[2]
    if not is_c(n): raise E.Unsupported('memcpy of symbolic length')
    ok = ex.memcpy(st, args[0], args[1], n.k)
    return args[0], (st if ok else None)
@regx(r'llvm\.memset|memset$')
def _(ex, nm, args, tys, rty, st):
    n = args[2]; v = args[1]
    if not is_c(n): raise E.Unsupported('memset of symbolic length')
    if n.k == 0: return args[0], st
    p = args[0]
    v = trunc(v, 8)
    if isinstance(p, E.Ptr) and is_c(p.off):
        if not ex.check(st, p, n.k, 'memset'): return None, None
        o = ex.wobj(st, p.obj); off = p.off.k; end = off + n.k
        for x in ex.split(o, off, n.k): del o.cells[x]
        while off < end:
            k = 8
            while off % k or off + k > end: k //= 2
            w = v
            while w.s < 8*k: w = concat(w, w)
            o.cells[off] = (k, w); off += k
        return args[0], st
    for i in range(n.k):
        if not ex.store(st, E.padd(p, const(i, 64)), 1, v): return None, None
    return args[0], st
@reg('memcmp', 'bcmp')
def _(ex, nm, args, tys, rty, st):
    n = args[2]
    if not is_c(n): raise E.Unsupported('memcmp symbolic')
    e = TRUE; i = 0
    while i < n.k:
        w = 8
        for p in args[:2]:
            if isinstance(p, E.Ptr) and is_c(p.off):
                c = ex.getobj(st, p.obj).cells.get(p.off.k+i)
                if c: w = min(w, c[0])
        while i + w > n.k: w //= 2
        a = ex.load(st, E.padd(args[0], const(i, 64)), w, 'i'); b = ex.load(st, E.padd(args[1], const(i, 64)), w, 'i')
        if a is None or b is None: return None, None
        e = band(e, eq(a, b)); i += w
    r = fresh('memcmp', 32)
    if not st.assume(bnot(eq(r, const(0, 32)))): return None, None
    return ite(e, const(0, 32), r), st
@reg('strlen')
def _(ex, nm, args, tys, rty, st): return const(len(cstr(ex, args[0])), 64), st

# ------------------------------------------------------------- intrinsics
@regx(r'llvm\.(lifetime|dbg|assume|experimental|stackrestore|prefetch|donothing)')
def _(ex, nm, args, tys, rty, st): return None, st
@regx(r'llvm\.stacksave')
def _(ex, nm, args, tys, rty, st): return E.NULL, st
@regx(r'llvm\.expect')
def _(ex, nm, args, tys, rty, st): return args[0], st
@regx(r'llvm\.is\.constant')
def _(ex, nm, args, tys, rty, st): return FALSE, st
@regx(r'llvm\.objectsize')
def _(ex, nm, args, tys, rty, st): return const(-1, rty.n), st
@regx(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow')
def _(ex, nm, args, tys, rty, st):
    m = re.match(r'@llvm\.(s|u)(add|sub|mul)', nm); sg, op = m.group(1) == 's', m.group(2)
    a, b = args; n = a.s
    r = {'add': add, 'sub': sub, 'mul': tm.mul}[op](a, b)
    return E.Agg([r, ovf(op, a, b, sg)]), st
def ovf(op, a, b, sg):
    n = a.s
    if sg:
        if op in ('add', 'sub'):
            x = {'add': add, 'sub': sub}[op](sext(a, n+1), sext(b, n+1))
            if is_c(a) or is_c(b) or True:
                la, ha = srange(a); lb, hb = srange(b)
                lo, hi = (la+lb, ha+hb) if op == 'add' else (la-hb, ha-lb)
                if -(1 << (n-1)) <= lo and hi < 1 << (n-1): return FALSE
            r = {'add': add, 'sub': sub}[op](a, b)
            # classic sign formula
            z = const(0, n)
            if op == 'add':
                if is_c(b):
                    v = tm.sgn(b.k, n)
                    return slt(const((1 << (n-1))-1-v, n), a) if v >= 0 else slt(a, const(-(1 << (n-1))-v, n))
                if is_c(a): return ovf(op, b, a, sg)
                return mk('saddo', (a, b), None, 0)
            if is_c(b):
                v = tm.sgn(b.k, n)
                return slt(a, const(-(1 << (n-1))+v, n)) if v >= 0 else slt(const((1 << (n-1))-1+v, n), a)
            return mk('ssubo', (a, b), None, 0)
        la, ha = srange(a); lb, hb = srange(b)
        ps = [la*lb, la*hb, ha*lb, ha*hb]
        if -(1 << (n-1)) <= min(ps) and max(ps) < 1 << (n-1): return FALSE
        if is_c(a): a, b = b, a
        if is_c(b):
            v = tm.sgn(b.k, n)
            if v > 0:
                hi = ((1 << (n-1))-1)//v; lo = -((1 << (n-1))//v)
                return bor(slt(const(hi, n), a), slt(a, const(lo, n)))
            if v == -1: return eq(a, const(1 << (n-1), n))
        return mk('smulo', (a, b), None, 0)
    if op == 'add': return ult(add(a, b), a) if not (is_c(b)) else ult(const(mask(n)-b.k, n), a)
    if op == 'sub': return ult(a, b)
    return mk('umulo', (a, b), None, 0)
def srange(a):
    n = a.s; l, h = urange(a)
    if h < 1 << (n-1): return l, h
    if a.op == 'sext':
        k = a.args[0].s; return -(1 << (k-1)), (1 << (k-1))-1
    if is_c(a): v = tm.sgn(a.k, n); return v, v
    return -(1 << (n-1)), (1 << (n-1))-1
@regx(r'llvm\.(umin|umax|smin|smax)')
def _(ex, nm, args, tys, rty, st):
    a, b = args; k = nm[6:10]
    c = {'umin': ult(a, b), 'umax': ult(b, a), 'smin': slt(a, b), 'smax': slt(b, a)}[k]
    return ite(c, a, b), st
@regx(r'llvm\.abs\.')
def _(ex, nm, args, tys, rty, st):
    a = args[0]; return ite(slt(a, const(0, a.s)), neg(a), a), st
@regx(r'llvm\.ctlz')
def _(ex, nm, args, tys, rty, st): return ctlz(args[0]), st
@regx(r'llvm\.cttz')
def _(ex, nm, args, tys, rty, st): return cttz(args[0]), st
@regx(r'llvm\.ctpop')
def _(ex, nm, args, tys, rty, st): return popcnt(args[0]), st
@regx(r'llvm\.fsh(l|r)')
def _(ex, nm, args, tys, rty, st):
    a, b, c = args; n = a.s
    c = urem(c, const(n, n))
    x = concat(a, b)
    c2 = zext(c, 2*n)
    if 'fshl' in nm: return extract(shl(x, c2), 2*n-1, n), st
    return trunc(lshr(x, c2), n), st

# ------------------------------------------------------------- math
M1 = {'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'ftrunc', 'fabs': 'fabs', 'log': 'log', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'expm1': 'expm1', 'log1p': 'log1p', 'rint': 'rint', 'round': 'round', 'log2': 'log2', 'atan': 'atan', 'tgamma': 'tgamma', 'lgamma': 'lgamma'}
M2 = {'pow': 'pow', 'ldexp': 'ldexp', 'fmod': 'fmod', 'atan2': 'atan2', 'fmax': 'fmax', 'fmin': 'fmin', 'copysign': 'copysign'}
def mathname(b):
    for suf in ('', 'f', 'l'):
        for d in (M1, M2):
            for k in d:
                if b == k + suf: return d[k]
def _math(ex, nm, args, tys, rty, st):
    b = nm[1:]
    if b.startswith('llvm.'): b = b.split('.')[1]
    f = mathname(b) or b
    s = -rty.n
    a = args
    if f == 'pow' and all(is_c(x) for x in a) and s != -80:
        try:
            r = math.pow(b2f(a[0].k, s), b2f(a[1].k, s))
            if s == -64 or f2b_exact32(r): return const(f2b(r, s), s), st
        except Exception: pass
    if f == 'ldexp' and all(is_c(x) for x in a) and s != -80:
        r = math.ldexp(b2f(a[0].k, s), tm.sgn(a[1].k, a[1].s))
        return const(f2b(r, s), s), st
    if f == 'copysign':
        n = -s
        return fofbits(or_(and_(fbits(a[0]), const(mask(n) >> 1, n)), and_(fbits(a[1]), const(1 << (n-1), n)))), st
    return fun(f, tuple(a), s), st
def f2b_exact32(r):
    import struct
    try: return struct.unpack('<f', struct.pack('<f', r))[0] == r
    except Exception: return False
RX.append((re.compile(r'(llvm\.)?(%s)([fl]?$|\.)' % '|'.join(list(M1)+list(M2))), _math))
