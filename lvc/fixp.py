"""Exact fixed-point back end for floating point obligations.

A floating point term that is provably an integer N times 2^-e with |N| <= 2^p (p = precision) is computed without
rounding, so it is replaced by the integer N; comparisons and conversions become integer formulas.  The bound on N is a
side obligation of its own, discharged under the path condition, using only parts of the path condition whose own terms
have already been shown exact.  A proof obtained this way is a proof about IEEE arithmetic."""
from terms import *
import terms as tm
PREC = {-32: 24, -64: 53, -80: 64}
EMIN = {-32: 120, -64: 1000, -80: 1000}
MAXW = 400
class Fail(Exception): pass
DEBUG = [0]
def width(lo, hi):
    n = 1
    while not (-(1 << (n-1)) <= lo and hi < (1 << (n-1))): n += 1
    return n
class Fx:
    __slots__ = ('t', 'e', 'lo', 'hi', 'ok')      # if ok: value = signed(t) * 2^-e exactly, lo <= signed(t) <= hi
    def __init__(s, t, e, lo, hi, ok):
        s.ok = ok
        n = width(lo, hi)
        if n > MAXW: raise Fail('width')
        if t.s > n: t = trunc(t, n)
        elif t.s < n: t = sext(t, n)
        s.t = t; s.e = e; s.lo = lo; s.hi = hi
def fit(x, n): return sext(x, n) if x.s < n else x
class Conv:
    def __init__(s):
        s.fx = {}; s.sides = []; s.ext = {}; s.memo = {}
    def dyad(s, k, srt):
        x = b2f(k, srt)
        if x != x or x in (float('inf'), float('-inf')): raise Fail('nonfinite const')
        n, d = float(x).as_integer_ratio()
        return n, d.bit_length() - 1
    def align(s, a, b):
        e = max(a.e, b.e)
        return s.scale(a, e), s.scale(b, e), e
    def scale(s, a, e):
        k = e - a.e
        if k == 0: return a
        lo, hi = a.lo << k, a.hi << k
        n = width(lo, hi)
        if n > MAXW: raise Fail('width')
        return Fx(shl(fit(a.t, n), const(k, n)), e, lo, hi, a.ok)
    def bounded(s, t, f):
        """f must have |N| <= 2^p (after removing known common factor: none)"""
        p = PREC[t.s]
        if f.e > EMIN[t.s]: raise Fail('subnormal')
        lim = 1 << p
        if -lim <= f.lo and f.hi <= lim: return f
        n = f.t.s
        return Fx(f.t, f.e, max(f.lo, -lim), min(f.hi, lim), band(f.ok, sle(const(-lim, n), f.t), sle(f.t, const(lim, n))))
    def fp(s, t):
        r = s.fx.get(t.id)
        if r is None:
            r = s.fx[t.id] = s.calc(t)
        return r
    def calc(s, t):
        op = t.op; A = t.args
        if op == 'c':
            n, e = s.dyad(t.k, t.s); return Fx(const(n, width(n, n)), e, n, n, TRUE)
        if op == 'uitofp':
            x = s.bv(A[0]); lo, hi = urange(x); return s.bounded(t, Fx(zext(x, x.s + 1), 0, 0, hi, TRUE))
        if op == 'sitofp':
            x = s.bv(A[0]); n = x.s; lo, hi = urange(x)
            return s.bounded(t, Fx(x, 0, 0, hi, TRUE) if hi < 1 << (n-1) else Fx(x, 0, -(1 << (n-1)), (1 << (n-1)) - 1, TRUE))
        if op in ('fadd', 'fsub'):
            a, b, e = s.align(s.fp(A[0]), s.fp(A[1]))
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if op == 'fadd' else (a.lo - b.hi, a.hi - b.lo)
            n = max(width(lo, hi), a.t.s, b.t.s)
            f = add if op == 'fadd' else sub
            return s.bounded(t, Fx(f(fit(a.t, n), fit(b.t, n)), e, lo, hi, band(a.ok, b.ok)))
        if op == 'fneg':
            a = s.fp(A[0]); n = max(width(-a.hi, -a.lo), a.t.s); return Fx(neg(fit(a.t, n)), a.e, -a.hi, -a.lo, a.ok)
        if op == 'fmul':
            a, b = s.fp(A[0]), s.fp(A[1])
            if a.lo == a.hi: a, b = b, a
            if b.lo == b.hi:
                c = b.lo
                if c == 0: return Fx(const(0, 1), 0, 0, 0, a.ok)
                k = (c & -c).bit_length() - 1; c >>= k; e = a.e + b.e - k
                if e < 0: return s.bounded(t, s.scale2(a, c, e))
                if c == 1: return s.bounded(t, Fx(a.t, e, a.lo, a.hi, a.ok))
                xs = [a.lo * c, a.hi * c]; n = max(width(min(xs), max(xs)), a.t.s)
                return s.bounded(t, Fx(mul(fit(a.t, n), const(c, n)), e, min(xs), max(xs), a.ok))
            xs = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]; lo, hi = min(xs), max(xs); n = max(width(lo, hi), a.t.s, b.t.s)
            return s.bounded(t, Fx(mul(fit(a.t, n), fit(b.t, n)), a.e + b.e, lo, hi, band(a.ok, b.ok)))
        if op == 'fdiv':
            a, b = s.fp(A[0]), s.fp(A[1])
            if b.lo == b.hi and b.lo > 0 and b.lo & (b.lo - 1) == 0:
                e = a.e - b.e + b.lo.bit_length() - 1
                if e < 0: return s.bounded(t, s.scale2(a, 1, e))
                return s.bounded(t, Fx(a.t, e, a.lo, a.hi, a.ok))
            raise Fail('fdiv')
        if op == 'ite':
            a, b, e = s.align(s.fp(A[1]), s.fp(A[2])); n = max(a.t.s, b.t.s)
            c = s.bool(A[0]); return Fx(ite(c, fit(a.t, n), fit(b.t, n)), e, min(a.lo, b.lo), max(a.hi, b.hi), ite(c, a.ok, b.ok))
        if op == 'fpconv':
            a = s.fp(A[0]); return s.bounded(t, a)
        if op == 'fn' and t.k == 'fabs':
            a = s.fp(A[0]); n = max(width(-a.hi, -a.lo), a.t.s); x = fit(a.t, n)
            return Fx(ite(slt(x, const(0, n)), neg(x), x), a.e, 0, max(abs(a.lo), abs(a.hi)), a.ok)
        if op == 'fn' and t.k in ('floor', 'ftrunc', 'ceil'):
            a = s.fp(A[0]); return s.integral(a, t.k)
        if op == 'fn' and t.k == 'fmod':
            a, b = s.fp(A[0]), s.fp(A[1])
            if b.lo == b.hi and b.lo > 0 and b.lo & (b.lo - 1) == 0 and a.lo >= 0:
                sh = b.lo.bit_length() - 1 - b.e + a.e            # divisor = 2^sh units of a
                if sh < 0: raise Fail('fmod')
                n = max(a.t.s, sh + 2)
                return Fx(and_(fit(a.t, n), const((1 << sh) - 1, n)), a.e, 0, min(a.hi, (1 << sh) - 1), a.ok)
            raise Fail('fmod')
        raise Fail('fp op %s %s' % (op, t.k))
    def scale2(s, a, c, e):
        k = -e; lo, hi = (a.lo * c) << k, (a.hi * c) << k
        if c < 0: lo, hi = hi, lo
        n = max(width(lo, hi), a.t.s)
        if n > MAXW: raise Fail('width')
        return Fx(mul(fit(a.t, n), const(c << k, n)), 0, lo, hi, a.ok)
    def integral(s, a, kind):
        if a.e == 0: return a
        k = a.e; n = max(a.t.s, k + 2); x = fit(a.t, n)
        if kind == 'ftrunc' and a.lo >= 0: kind = 'floor'
        if kind == 'floor': return Fx(ashr(x, const(k, n)), 0, a.lo >> k, a.hi >> k, a.ok)
        if kind == 'ceil': return Fx(neg(ashr(neg(x), const(k, n))), 0, -((-a.lo) >> k), -((-a.hi) >> k), a.ok)
        return Fx(ite(slt(x, const(0, n)), neg(ashr(neg(x), const(k, n))), ashr(x, const(k, n))), 0, min(0, -((-a.lo) >> k)), max(0, a.hi >> k), a.ok)
    def need(s, *fs):
        ok = band(*[f.ok for f in fs])
        if ok is not TRUE: s.sides.append((None, ok))
    def cmp(s, op, x, y):
        a, b, e = s.align(s.fp(x), s.fp(y)); s.need(a, b); n = max(a.t.s, b.t.s); u, v = fit(a.t, n), fit(b.t, n)
        return eq(u, v) if op == 'feq' else slt(u, v) if op == 'flt' else sle(u, v)
    def bv(s, t): return s.rw(t)
    def bool(s, t): return s.rw(t)
    def rw(s, t):
        r = s.memo.get(t.id)
        if r is not None: return r
        # iterative post-order over non-fp structure
        for u in subterms([t]):
            if u.id in s.memo or u.s < 0: continue
            op = u.op
            if op in ('feq', 'flt', 'fle'): r = s.cmp(op, *u.args)
            elif op == 'fnan': s.need(s.fp(u.args[0])); r = FALSE
            elif op in ('fptoui', 'fptosi'):
                a = s.integral(s.fp(u.args[0]), 'ftrunc'); s.need(a); n = u.s
                lo, hi = (0, (1 << n) - 1) if op == 'fptoui' else (-(1 << (n-1)), (1 << (n-1)) - 1)
                if not (lo <= a.lo and a.hi <= hi):
                    w = max(a.t.s, n + 1); x = fit(a.t, w)
                    r = ite(band(sle(const(lo, w), x), sle(x, const(hi, w))), trunc(x, n), mk('fn', (u,), 'oob', n))   # out of range: unspecified
                    # u itself is opaque here
                    r = ite(band(sle(const(lo, w), x), sle(x, const(hi, w))), trunc(x, n), var('oob!%d' % u.id, n))
                else: r = trunc(fit(a.t, n), n) if a.t.s <= n else trunc(a.t, n)
            elif op == 'eq' and u.args[0].s < 0:
                a, b = u.args
                if a is b: r = TRUE
                else: raise Fail('bitwise fp eq')
            elif op in ('fbits',): raise Fail('fbits')
            elif not u.args: r = u
            elif any(a.s < 0 for a in u.args): raise Fail('op %s' % op)
            else:
                na = [s.memo[a.id] for a in u.args]
                r = u if all(x is y for x, y in zip(na, u.args)) else rebuild(u, na)
            s.memo[u.id] = r
        return s.memo[t.id]
def hasfp(t): return any(u.s < 0 for u in subterms([t]))
def prepare(pc, goal):
    """list of (hyps, goal) integer obligations equivalent to (implying) pc => goal, or None"""
    c = Conv()
    hyps = []          # (rewritten, frozenset of side indices it depends on)
    for h in pc:
        if not hasfp(h): hyps.append((h, 0)); continue
        n0 = len(c.sides)
        try: r = c.rw(h)
        except (Fail, RecursionError) as e:
            if DEBUG[0]: print('fixp hyp dropped', e)
            del c.sides[n0:]
            # forget terms whose side conditions were dropped
            c.fx.clear(); c.memo.clear(); c.sides = list(c.sides)
            continue
        hyps.append((r, len(c.sides)))
    try: g = c.rw(goal)
    except (Fail, RecursionError) as e:
        if DEBUG[0]: print('fixp fail', e, show(goal, 5)[:500])
        return None
    obs = []
    for i, (t, side) in enumerate(c.sides):
        obs.append(([h for h, n in hyps if n <= i] + [x for _, x in c.sides[:i]], side))
    obs.append(([h for h, n in hyps] + [x for _, x in c.sides], g))
    return [(h, g) for h, g in obs if g is not TRUE]
