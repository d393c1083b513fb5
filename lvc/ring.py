"""Polynomial normal form over Z or Z/m: decides equalities of terms that differ only by ring laws.
prove(pc, goal) -> list of remaining (pc, goal) side obligations, or None if the tactic does not apply."""
import terms as tm
from terms import *
import solve as S

class NoRing(Exception): pass
rngfn = S.rngfn
def zero_under(c, t):
    if c.op == 'eq':
        for p, q in (c.args, c.args[::-1]):
            if is_c(q) and q.k == 0 and (p is t or strip(p) is strip(t)): return True
    if c.op == 'ult' and is_c(c.args[1]):
        y, k = c.args[0], c.args[1].k
        t = strip(t)
        if k == 1 and strip(y) is t: return True
        if t.op == 'lshr' and is_c(t.args[1]) and strip(t.args[0]) is strip(y) and k <= 1 << t.args[1].k: return True
        if t.op == 'extract' and strip(t.args[0]) is strip(y) and k <= 1 << t.k[1]: return True
    return False
def any_disj(x, y, rng):
    return rng(x)[1] < 1 << S.tz_of(y) or rng(y)[1] < 1 << S.tz_of(x)
def strip(t):
    while t.op == 'zext': t = t.args[0]
    return t
class Ring:
    def __init__(s, pc, m, limit=4000, nowrap=False):
        s.nowrap = nowrap; s.nw = False
        s.pc = pc; s.m = m; s.side = []; s.limit = limit
        s.rng = rngfn(S.path_bounds(pc)); s.memo = {}; s.atoms = {}
        s.sub = {}
        for h in pc:
            if h.op == 'eq' and h.args[0].s > 0:
                a, b = h.args
                for x, y in ((a, b), (b, a)):
                    while x.op == 'trunc' and s.rng(x.args[0])[1] <= mask(x.s): x = x.args[0]
                    if x.op in ('v', 'fn', 'udiv', 'urem') and not is_c(x) and x.id not in s.sub and not contains(y, x): s.sub[x.id] = y; break
        s.depth = 0; s._ex = None
    def red(s, c): return c % s.m if s.m else c
    def padd(s, a, b, k=1):
        r = dict(a)
        for mo, c in b.items():
            v = s.red(r.get(mo, 0) + k*c)
            if v: r[mo] = v
            else: r.pop(mo, None)
        return r
    def pmul(s, a, b):
        if len(a)*len(b) > s.limit: raise NoRing('size')
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                mo = tuple(sorted(m1+m2, key=repr)); v = s.red(r.get(mo, 0) + c1*c2)
                if v: r[mo] = v
                else: r.pop(mo, None)
        return r
    def con(s, c):
        c = s.red(c); return {(): c} if c else {}
    def atom(s, t, key=None):
        k = t.id if key is None else key
        s.atoms[k] = t
        return {(k,): 1} if s.m != 1 else {}
    def wrapok(s, n): return s.m and (1 << n) % s.m == 0
    def ex(s):
        if s.m == 0: return s
        if s._ex is None: s._ex = Ring(s.pc, 0, s.limit, s.nowrap); s._ex.atoms = s.atoms; s._ex.side = s.side
        return s._ex
    def poly(s, t, g):
        k = (t.id, g)
        v = s.memo.get(k)
        if v is None:
            v = s._poly(t, g); s.memo[k] = v
        return v
    def prange(s, P):
        lo = hi = 0
        for mo, c in P.items():
            l = h = 1
            for i in mo:
                al, ah = s.arange(i); l *= al; h *= ah
            lo += c*l if c > 0 else c*h; hi += c*h if c > 0 else c*l
        return lo, hi
    def arange(s, i):
        t = s.atoms[i]
        if isinstance(t, T): return s.rng(t)
        return t      # stored range of a quotient atom
    def pquot(s, P, c, rg=None):
        """floor(P/c) for an exact polynomial P (rg: known range of P); result as exact polynomial"""
        Q = {}; B = {}
        for mo, k in P.items():
            q, r = divmod(k, c)
            if mo == (): B[mo] = k
            elif r == 0: Q[mo] = q
            else:
                if 2*r > c: q, r = q+1, r-c
                if q: Q[mo] = q
                B[mo] = r
        k0 = B.pop((), 0); q, r = divmod(k0, c)
        if q: Q[()] = q
        if r: B[()] = r
        if not B: return Q
        lo, hi = s.prange(B)
        if rg is not None and not Q: lo, hi = max(lo, rg[0]), min(hi, rg[1])
        if lo // c == hi // c:
            if lo // c: Q = s.padd(Q, s.con(lo // c))
            return Q
        if len(B) == 1:
            (mo, k), = B.items()
            if k == 1 and len(mo) == 1 and isinstance(mo[0], tuple) and mo[0][0] == 'q':
                _, fb, c2 = mo[0]
                B = dict(fb); c = c*c2
                lo, hi = s.arange(mo[0])[0]*c2, s.arange(mo[0])[1]*c2 + c2 - 1
        key = ('q', tuple(sorted(B.items(), key=repr)), c)
        nr = (lo // c, hi // c)
        old = s.atoms.get(key)
        s.atoms[key] = nr if old is None else (max(nr[0], old[0]), min(nr[1], old[1]))
        return s.padd(Q, {(key,): 1})
    def divmod_(s, x, c, n, g):
        """poly of x mod c"""
        lo, hi = s.rng(x)
        if hi < c: return s.poly(x, g)
        if s.m and c % s.m == 0: return s.poly(x, g)
        return s.padd(s.poly(x, g), s.quot(x, c, g), -c)
    def quot(s, x, c, g):
        E = s.ex()
        return s.redp(E.pquot(E.poly(x, g), c, s.rng(x)))
    def redp(s, P):
        if not s.m: return P
        return {mo: k % s.m for mo, k in P.items() if k % s.m}
    def wrapped(s, X, n):
        """X exact polynomial: X mod 2^n"""
        E = s.ex()
        return s.redp(E.padd(X, E.pquot(X, 1 << n), -(1 << n)))
    def _poly(s, t, g):
        n = t.s; op = t.op; A = t.args
        if op == 'c': return s.con(t.k)
        if t.id in s.sub and s.depth < 50:
            s.depth += 1
            try: return s.poly(s.sub[t.id], g)
            finally: s.depth -= 1
        if op == 'zext': return s.poly(A[0], g)
        if op == 'sext' and s.rng(A[0])[1] < 1 << (A[0].s-1): return s.poly(A[0], g)
        if op == 'trunc':
            if s.rng(A[0])[1] <= mask(n) or s.wrapok(n): return s.poly(A[0], g)
            return s.divmod_(A[0], 1 << n, A[0].s, g)
        if op == 'lin':
            best = None
            for sg in (False, True):
                lo = hi = tm.sgn(t.k[0], n) if sg else t.k[0]
                for co, x in zip(t.k[1], A):
                    if sg: co = tm.sgn(co, n)
                    l, h = s.rng(x)
                    lo += co*l if co > 0 else co*h; hi += co*h if co > 0 else co*l
                if lo >= 0 and hi <= mask(n): best = sg; break
            if best is None:
                best = True
                if s.wrapok(n): pass
                elif all(not co >> (n-1) for co in t.k[1]) and not (t.k[0] >> (n-1) and sum(co*s.rng(x)[1] for co, x in zip(t.k[1], A)) <= mask(n)):
                    E = s.ex(); X = E.con(t.k[0])
                    for co, x in zip(t.k[1], A): X = E.padd(X, E.poly(x, g), co)
                    return s.wrapped(X, n)
                else:
                    # side obligation: no wrap under the guard, stated in wide arithmetic
                    w = 2*n + 12
                    pos = neg = const(0, w)
                    for co, x in list(zip(t.k[1], A)) + [(t.k[0], const(1, n))]:
                        co = tm.sgn(co, n)
                        if co > 0: pos = add(pos, tm.mul(const(co, w), zext(x, w)))
                        elif co < 0: neg = add(neg, tm.mul(const(-co, w), zext(x, w)))
                    s.side.append((g, band(ule(neg, pos), ult(pos, add(neg, const(1 << n, w))))))
            r = s.con(tm.sgn(t.k[0], n) if best else t.k[0])
            for co, x in zip(t.k[1], A):
                r = s.padd(r, s.poly(x, g), tm.sgn(co, n) if best else co)
            return r
        if op == 'mul':
            if s.rng(A[0])[1]*s.rng(A[1])[1] > mask(n) and not s.wrapok(n) and s.nowrap:
                s.side.append((g, ult(tm.mul(zext(A[0], 2*n), zext(A[1], 2*n)), const(1 << n, 2*n))))
            elif s.rng(A[0])[1]*s.rng(A[1])[1] > mask(n) and not s.wrapok(n):
                s.nw = True
                E = s.ex(); return s.wrapped(E.pmul(E.poly(A[0], g), E.poly(A[1], g)), n)
            return s.pmul(s.poly(A[0], g), s.poly(A[1], g))
        if op == 'shl' and is_c(A[1]):
            if s.rng(A[0])[1] << A[1].k > mask(n) and not s.wrapok(n):
                E = s.ex(); return s.wrapped(E.pmul(E.poly(A[0], g), E.con(1 << A[1].k)), n)
            return s.pmul(s.poly(A[0], g), s.con(1 << A[1].k))
        if op == 'or':
            parts = sorted(A, key=lambda x: s.rng(x)[1])
            if all(any_disj(parts[i], parts[j], s.rng) for i in range(len(parts)) for j in range(i)):
                r = {}
                for x in parts: r = s.padd(r, s.poly(x, g))
                return r
            return s.atom(t)
        if op in ('urem', 'srem') and is_c(A[1]) and A[1].k:
            if op == 'srem' and (s.rng(A[0])[1] >> (n-1) or A[1].k >> (n-1)): return s.atom(t)
            return s.divmod_(A[0], A[1].k, n, g)
        if op == 'urem' and not is_c(A[1]) and s.rng(A[1])[0] > 0:
            return s.padd(s.poly(A[0], g), s.pmul(s.poly(A[1], g), s.poly(tm.udiv(A[0], A[1]), g)), -1)
        if op in ('udiv', 'sdiv') and is_c(A[1]) and A[1].k:
            if op == 'sdiv' and (s.rng(A[0])[1] >> (n-1) or A[1].k >> (n-1)): return s.atom(t)
            return s.quot(A[0], A[1].k, g)
        if op == 'lshr' and is_c(A[1]): return s.quot(A[0], 1 << A[1].k, g)
        if op == 'and' and len(A) == 2 and is_c(A[0]) and A[0].k & (A[0].k+1) == 0:
            return s.divmod_(A[1], A[0].k+1, n, g)
        if op == 'extract':
            h, l = t.k; x = A[0]
            q = s.quot(x, 1 << l, g) if l else s.poly(x, g)
            if s.rng(x)[1] >> l <= mask(n): return q
            if l == 0: return s.divmod_(x, 1 << n, x.s, g)
            # bits h..l = floor(x/2^l) - 2^n floor(x/2^(h+1))
            return s.padd(q, s.quot(x, 1 << (h+1), g), -(1 << n))
        if op == 'concat':
            return s.padd(s.pmul(s.poly(A[0], g), s.con(1 << A[1].s)), s.poly(A[1], g))
        if op == 'ite':
            if OPAQUE[0]: return s.atom(t)
            a = s.poly(A[1], g + (A[0],)); b = s.poly(A[2], g + (bnot(A[0]),))
            return a if a == b else s.itepoly(t, a, b, g)
        return s.atom(t)
    def zero_under_poly(s, c, d, g):
        E = s.ex(); z = None
        if c.op == 'eq':
            for p, q in (c.args, c.args[::-1]):
                if is_c(q) and q.k == 0 and p.s > 0: z = s.redp(E.poly(p, g)); break
        elif c.op == 'ult' and is_c(c.args[1]):
            z = s.redp(E.pquot(E.poly(c.args[0], g), c.args[1].k)) if c.args[1].k > 1 else s.redp(E.poly(c.args[0], g))
        if not z: return False
        if d == z or d == s.padd({}, z, -1): return True
        # multiple of z?
        mo = next(iter(z)); k = d.get(mo)
        if k is None: 
            if len(z) == 1 and len(mo) == 1: return all(mo[0] in m2 for m2 in d)
            return False
        k0 = z[mo]
        return k % k0 == 0 and d == s.padd({}, z, k // k0)
    def itepoly(s, t, a, b, g):
        c = t.args[0]
        for cc, x, y in ((c, a, b), (bnot(c), b, a)):     # under cc the value is x; if the atoms of y - x vanish under cc, y always holds
            d = s.padd(y, x, -1)
            if d and s.zero_under_poly(cc, d, g): return y
        return s.atom(t)
_cont = {}
def contains(t, x):
    k = (t.id, x.id)
    r = _cont.get(k)
    if r is None:
        r = any(y is x for y in subterms([t])); _cont[k] = r
    return r
def moduli(ts):
    r = []
    for t in subterms(ts):
        if t.op in ('urem', 'srem') and is_c(t.args[1]) and t.args[1].k > 2 and t.args[1].k not in r: r.append(t.args[1].k)
        if t.op == 'and' and is_c(t.args[0]) and t.args[0].k & (t.args[0].k+1) == 0 and t.args[0].k > 1 and t.args[0].k+1 not in r: r.append(t.args[0].k+1)
    return r
SPLIT = [False]; OPAQUE = [False]
def prove(pc, goal, mods=None, split=6):
    g = goal
    if g.op != 'eq' or g.args[0].s <= 0: return None
    a, b = g.args
    sp = SPLIT[0]; SPLIT[0] = False
    try:
        OPAQUE[0] = True      # conditionals as atoms first
        try: r = prove1(pc, a, b, mods, split)
        finally: OPAQUE[0] = False
        if r is None: r = prove1(pc, a, b, mods, split)
        if r is None and sp:
            SPLIT[0] = True; r = try_mod(pc, a, b, (mods or [0])[0], split)
    finally: SPLIT[0] = sp
    if r is not None: return r
    if DEBUG[0]: debug(pc, a, b, mods, split)
    return None
def prove1(pc, a, b, mods, split):
    for m in [0] + (mods or []) + [m for m in moduli([a, b]) if m > 2][::-1][:6] + ([1 << a.s] if a.s > 1 else []):
        r = try_mod(pc, a, b, m, split)
        if r is not None: return r
    return None
def debug(pc, a, b, mods, split):
    R = Ring(pc, (mods or [0])[0])
    p, q = R.poly(a, ()), R.poly(b, ())
    d = R.padd(p, q, -1)
    print('ring: difference', len(d)); DEBUG[1] = (mods or [0])[0]; try_mod(pc, a, b, DEBUG[1], split); DEBUG[1] = -1
    for mo, c in list(d.items())[:12]: print('   ', c, [(repr(R.atoms[i])+repr(i if isinstance(i,tuple) else ''))[:300] for i in mo])
DEBUG = [False, -1]
def try_mod(pc, a, b, m, split, nowrap=False, depth=0):
    R = Ring(pc, m, nowrap=nowrap)
    try:
        p, q = R.poly(a, ()), R.poly(b, ())
    except NoRing: return None
    if p == q:
        side = [(tuple(pc) + tuple(g), o) for g, o in R.side if o is not TRUE]
        if m and m != 1 << a.s:
            for x in (a, b):
                if R.rng(x)[1] >= m: side.append((tuple(pc), ult(x, const(m, x.s)) if m <= mask(x.s) else TRUE))
        return [x for x in side if x[1] is not TRUE]
    if (R.nw or R.ex().nw) and not nowrap:
        r = try_mod(pc, a, b, m, 0, True)
        if r is not None: return r
    if split:
        df = R.padd(p, q, -1)
        its = set(t.id for mo in df for i in mo for t in (R.atoms.get(i),) if isinstance(t, T) and t.op == 'ite') or set(t.id for mo in list(p) + list(q) for i in mo for t in (R.atoms.get(i),) if isinstance(t, T) and t.op == 'ite')
        ts = {t.id: t for mo in list(p) + list(q) for i in mo for t in (R.atoms.get(i),) if isinstance(t, T)}
        for i in sorted(its, reverse=True)[:1]:      # the outermost (latest built) conditional
            c = ts[i].args[0]; out = []
            for cc in (c, bnot(c)):
                a2, b2 = subst([a, b], {c.id: TRUE if cc is c else FALSE})
                if a2 is b2: continue
                r = try_mod(tuple(pc) + (cc,), a2, b2, m, split-1, False, depth+1)
                if r is None: return None
                out += r
            return out
    if DEBUG[0] and DEBUG[1] == m:
        d = R.padd(p, q, -1); print('   leaf m=%d' % m, [str(h)[:200] for h in pc[-7:]])
        for mo, c in list(d.items())[:12]: print('      ', c, [(repr(R.atoms[i])+repr(i if isinstance(i,tuple) else ''))[:300] for i in mo])
    if SPLIT[0] and depth and DEBUG[0]:
        d = R.padd(p, q, -1); print('   sleaf m=%d nowrap %s nw %s' % (m, nowrap, R.nw or R.ex().nw), [str(h)[:200] for h in pc[-2:]])
        for mo, c in list(d.items())[:12]: print('      ', c, [(repr(R.atoms[i])+repr(i if isinstance(i,tuple) else ''))[:300] for i in mo])
    if SPLIT[0] and depth and not nowrap: return [(tuple(pc), eq(a, b))]
    return None
