"""Hash-consed terms (Bool, BitVec, IEEE float) with local simplification.

Sorts: 0 = Bool, n>0 = BitVec n, -32/-64/-80 = binary32/binary64/x87 extended.
"""
import struct, math

class T:
    __slots__ = ('op', 'args', 'k', 's', 'id', 'rng')
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]

def mk(op, args, k, s):
    key = (op, tuple([a.id for a in args]), k, s)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.k = k; t.s = s; t.rng = None
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[key] = t
    return t

def show(t, d=6):
    if t.op == 'c': return ('%#x' % t.k if t.s else ('true' if t.k else 'false')) + (':%d' % t.s)
    if t.op == 'v': return t.k
    if d == 0: return '..'
    return '(%s%s %s)' % (t.op, '' if t.k is None else repr(t.k), ' '.join(show(a, d-1) for a in t.args))

def const(v, s):
    if s == 0: return mk('c', (), 1 if v else 0, 0)
    return mk('c', (), v & ((1 << abs(s)) - 1), s)
TRUE = const(1, 0); FALSE = const(0, 0)
def boolc(b): return TRUE if b else FALSE
def var(name, s): return mk('v', (), name, s)
_fresh = [0]
def fresh(prefix, s):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), s)
def is_c(t): return t.op == 'c'
def sgn(v, n): return v - (1 << n) if v >> (n-1) else v
def mask(n): return (1 << n) - 1

# ------------------------------------------------------------------ ranges
def urange(t):
    """Unconditional unsigned range of a BV term."""
    r = t.rng
    if r is None:
        r = t.rng = _urange(t)
    return r
def _urange(t):
    n = t.s; M = mask(n); op = t.op; a = t.args
    if op == 'c': return (t.k, t.k)
    if op == 'zext': return urange(a[0])
    if op == 'and':
        hi = M
        for x in a: hi = min(hi, urange(x)[1])
        return (0, hi)
    if op in ('or', 'xor'):
        hi = 0
        for x in a: hi |= (1 << urange(x)[1].bit_length()) - 1
        lo = max(urange(x)[0] for x in a) if op == 'or' else 0
        return (lo, hi)
    if op == 'ite':
        l1, h1 = urange(a[1]); l2, h2 = urange(a[2])
        return (min(l1, l2), max(h1, h2))
    if op == 'urem':
        l, h = urange(a[1])
        if l > 0:
            lx, hx = urange(a[0])
            if hx < l: return (lx, hx)
            return (0, min(h-1, hx))
        return (0, M)
    if op == 'udiv':
        l, h = urange(a[1]); lx, hx = urange(a[0])
        if l > 0: return (lx//h, hx//l)
        return (0, M)
    if op == 'lshr':
        if is_c(a[1]):
            lx, hx = urange(a[0]); s = a[1].k
            return (lx >> s, hx >> s) if s < n else (0, 0)
        return (0, urange(a[0])[1])
    if op == 'shl':
        if is_c(a[1]):
            lx, hx = urange(a[0]); s = a[1].k
            if s < n and (hx << s) <= M: return (lx << s, hx << s)
        return (0, M)
    if op == 'trunc':
        lx, hx = urange(a[0])
        if hx <= M: return (lx, hx)
        return (0, M)
    if op == 'lin':
        c, cs = t.k
        # as unsigned sum
        lo = hi = c
        for co, x in zip(cs, a):
            l, h = urange(x); lo += co*l; hi += co*h
        if hi <= M: return (lo, hi)
        lo = hi = sgn(c, n)
        for co, x in zip(cs, a):
            l, h = urange(x); co = sgn(co, n)
            if co >= 0: lo += co*l; hi += co*h
            else: lo += co*h; hi += co*l
        if lo >= 0 and hi <= M: return (lo, hi)
        return (0, M)
    if op == 'mul':
        l1, h1 = urange(a[0]); l2, h2 = urange(a[1])
        if h1*h2 <= M: return (l1*l2, h1*h2)
        return (0, M)
    if op == 'concat':
        n2 = a[1].s
        l1, h1 = urange(a[0])
        return (l1 << n2, (h1 << n2) | mask(n2))
    if op == 'extract':
        lx, hx = urange(a[0])
        h, l = t.k
        if h >= hx.bit_length(): return (lx >> l, hx >> l) if (lx>>l) <= (hx>>l) else (0, M)
        return (0, M)
    if op == 'popcnt': return (0, n)
    return (0, M)

# ------------------------------------------------------------------ bool
def bnot(a):
    if a.op == 'c': return boolc(not a.k)
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), None, 0)

def _nary(op, xs):
    unit, zero = (TRUE, FALSE) if op == 'and_' else (FALSE, TRUE)
    s = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is unit: continue
        if x is zero: return zero
        if x.op == op:
            st.extend(reversed(x.args)); continue
        s[x.id] = x
    for x in list(s.values()):
        if x.op == 'not' and x.args[0].id in s: return zero
    if not s: return unit
    if len(s) == 1: return next(iter(s.values()))
    l = [s[i] for i in sorted(s)]
    return mk(op, l, None, 0)
def band(*xs): return _nary('and_', xs)
def bor(*xs): return _nary('or_', xs)
def bimp(a, b): return bor(bnot(a), b)
def bxor(a, b):
    if is_c(a): return bnot(b) if a.k else b
    if is_c(b): return bnot(a) if b.k else a
    if a is b: return FALSE
    if a is bnot(b): return TRUE
    neg = False
    if a.op == 'not': a = a.args[0]; neg = not neg
    if b.op == 'not': b = b.args[0]; neg = not neg
    if a.id > b.id: a, b = b, a
    r = mk('eq', (a, b), None, 0)
    return r if neg else bnot(r)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.s == 0:
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is TRUE: return bor(bnot(c), a)
        if b is FALSE: return band(c, a)
    if c.op == 'eq' and is_c(c.args[0]) and c.args[0].k == 0 and b.op in ('xor', 'or', 'lin'):     # x == 0 ? y : y op x
        x = c.args[1]
        if x.s == b.s and (xor(b, x) is a if b.op == 'xor' else sub(b, x) is a if b.op == 'lin' else any(y is x for y in b.args) and or_(a, x) is b): return b
    if a.op == 'ite' and a.args[0] is c: return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c: return ite(c, a, b.args[2])
    if b.op == 'ite' and b.args[1] is a: return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[1] is b: return ite(band(c, bnot(a.args[0])), a.args[2], b)
    return mk('ite', (c, a, b), None, a.s)

EQCANON = [False]      # one form for a = b and b = a (option eqcanon; either is sound)
def eq(a, b):
    assert a.s == b.s, (a, b)
    if a is b:
        return TRUE
    if a.s == 0: return bnot(bxor(a, b))
    if a.op == 'c' and b.op == 'c':
        return boolc(a.k == b.k)
    if a.s > 0:
        la, ha = urange(a); lb, hb = urange(b)
        if ha < lb or hb < la: return FALSE
        if a.op == 'c': a, b = b, a
        if b.op == 'c':
            if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
                e1 = eq(a.args[1], b); e2 = eq(a.args[2], b)
                if e1.op == 'c' or e2.op == 'c':
                    return ite(a.args[0], e1, e2)
            if a.op == 'zext':
                return eq(a.args[0], const(b.k, a.args[0].s))
            if a.op == 'lin':
                c, cs = a.k
                if c:
                    return eq(_lin(0, list(zip(cs, a.args)), a.s), const(b.k - c, a.s))
            if a.op == 'xor' and is_c(a.args[0]):
                return eq(xor(a, a.args[0]), const(b.k ^ a.args[0].k, a.s))
        else:
            if a.op == 'zext' and b.op == 'zext' and a.args[0].s == b.args[0].s:
                return eq(a.args[0], b.args[0])
            if a.op == 'lin' or b.op == 'lin':
                d = sub(a, b)
                if is_c(d): return boolc(d.k == 0)
                if d.op == 'lin' and d.k[0] and len(d.args) == 2 and False: pass
                # drop common atoms
                pa = dict(); 
                if d.op == 'lin':
                    c, cs = d.k
                    n = a.s
                    if EQCANON[0] and min(zip((x.id for x in d.args), cs))[1] >> (n-1):      # one form for a = b and b = a
                        c = -c; cs = tuple((-co) & mask(n) for co in cs)
                    pos = [(co, x) for co, x in zip(cs, d.args) if not co >> (n-1)]
                    neg = [((-co) & mask(n), x) for co, x in zip(cs, d.args) if co >> (n-1)]
                    l = _lin(0, pos, n); r = _lin(-c, neg, n)
                    if not (l is a or l is b or r is a or r is b): return eq(l, r)
                elif False: pass
                else:
                    return eq(d, const(0, a.s))
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), None, 0)

# ------------------------------------------------------------------ BV
def _lin(c, parts, n):
    """c + sum co*x ; parts list of (co, x); merges."""
    M = mask(n)
    d = {}
    st = list(parts)
    while st:
        co, x = st.pop()
        co &= M
        if co == 0: continue
        if x.op == 'c': c += co*x.k; continue
        if x.op == 'lin':
            c += co*x.k[0]
            for co2, y in zip(x.k[1], x.args): st.append((co*co2, y))
            continue
        if x.op == 'shl' and is_c(x.args[1]):
            st.append((co << x.args[1].k, x.args[0])); continue
        if x.op == 'mul' and x.args[0].op == 'c':
            st.append((co * x.args[0].k, x.args[1])); continue
        if x.id in d:
            d[x.id] = ((d[x.id][0] + co) & M, x)
        else: d[x.id] = (co, x)
    c &= M
    items = [d[i] for i in sorted(d) if d[i][0]]
    if not items: return const(c, n)
    if len(items) == 1 and c == 0:
        co, x = items[0]
        if co == 1: return x
    return mk('lin', [x for _, x in items], (c, tuple(co for co, _ in items)), n)

def add(a, b):
    if a.op == 'c' and b.op == 'c': return const(a.k + b.k, a.s)
    return _lin(0, [(1, a), (1, b)], a.s)
def sub(a, b):
    if a.op == 'c' and b.op == 'c': return const(a.k - b.k, a.s)
    if a is b: return const(0, a.s)
    return _lin(0, [(1, a), (-1, b)], a.s)
def neg(a): return _lin(0, [(-1, a)], a.s)
def mul(a, b):
    n = a.s
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        if b.op == 'c': return const(a.k*b.k, n)
        return _lin(0, [(a.k, b)], n)
    # pull constant factors out of single-atom lins
    co = 1
    if a.op == 'lin' and len(a.args) == 1 and a.k[0] == 0: co *= a.k[1][0]; a = a.args[0]
    if b.op == 'lin' and len(b.args) == 1 and b.k[0] == 0: co *= b.k[1][0]; b = b.args[0]
    # ite(c, 0/1, ..) * b
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and is_c(x.args[1]) and is_c(x.args[2]):
            return ite(x.args[0], mul(const(co*x.args[1].k, n), y), mul(const(co*x.args[2].k, n), y))
    if a.id > b.id: a, b = b, a
    r = mk('mul', (a, b), None, n)
    return _lin(0, [(co, r)], n) if co != 1 else r
def udiv(a, b):
    n = a.s
    if b.op == 'c':
        if b.k == 1: return a
        if b.k == 0: return const(mask(n), n)
        if a.op == 'c': return const(a.k // b.k, n)
        if b.k & (b.k-1) == 0: return lshr(a, const(b.k.bit_length()-1, n))
    if a.op == 'c' and a.k == 0 and urange(b)[0] > 0: return a
    if urange(a)[1] < urange(b)[0]: return const(0, n)
    return mk('udiv', (a, b), None, n)
def urem(a, b):
    n = a.s
    if b.op == 'c':
        if b.k == 0: return a
        if a.op == 'c': return const(a.k % b.k, n)
        if b.k == 1: return const(0, n)
        if b.k & (b.k-1) == 0: return and_(a, const(b.k-1, n))
    if urange(a)[1] < urange(b)[0]: return a
    return mk('urem', (a, b), None, n)
def sdiv(a, b):
    n = a.s
    if a.op == 'c' and b.op == 'c' and b.k:
        x, y = sgn(a.k, n), sgn(b.k, n)
        q = abs(x)//abs(y)
        return const(q if (x < 0) == (y < 0) else -q, n)
    h = 1 << (n-1)
    if urange(a)[1] < h and urange(b)[1] < h and urange(b)[0] > 0: return udiv(a, b)
    return mk('sdiv', (a, b), None, n)
def srem(a, b):
    n = a.s
    if a.op == 'c' and b.op == 'c' and b.k:
        x, y = sgn(a.k, n), sgn(b.k, n)
        r = abs(x) % abs(y)
        return const(r if x >= 0 else -r, n)
    h = 1 << (n-1)
    if urange(a)[1] < h and urange(b)[1] < h and urange(b)[0] > 0: return urem(a, b)
    return mk('srem', (a, b), None, n)

def _bitop(op, xs, n):
    M = mask(n)
    if op == 'and': c = M; f = lambda p, q: p & q
    elif op == 'or': c = 0; f = lambda p, q: p | q
    else: c = 0; f = lambda p, q: p ^ q
    d = {}
    st = list(xs)
    while st:
        x = st.pop()
        if x.op == 'c': c = f(c, x.k); continue
        if x.op == op and len(x.args) <= 64: st.extend(x.args); continue
        if op == 'xor' and x.id in d: del d[x.id]
        else: d[x.id] = x
    if op == 'and' and c == 0: return const(0, n)
    if op == 'or' and c == M: return const(M, n)
    items = [d[i] for i in sorted(d)]
    if op == 'and':
        # drop mask if it covers the range of some operand
        if c != M and len(items) == 1:
            hi = urange(items[0])[1]
            full = (1 << hi.bit_length()) - 1
            if c & full == full: return items[0]
            if c & full == 0: return const(0, n)
            c &= full
            x = items[0]
            if x.op in ('or', 'xor'):
                # distribute mask when it kills some operand
                ys = [and_(y, const(c, n)) for y in x.args]
                if any(is_c(y) for y in ys): return _bitop(x.op, ys, n)
            if x.op == 'lshr' and is_c(x.args[1]) and False: pass
            if x.op in('shl',) and is_c(x.args[1]):
                k = x.args[1].k
                if c & (mask(n) >> k << k) == (mask(n) >> k << k) & mask(n): return x
                if (c >> k) == 0: return const(0, n)
            if x.op == 'ite' and is_c(x.args[1]) and is_c(x.args[2]):
                return ite(x.args[0], const(x.args[1].k & c, n), const(x.args[2].k & c, n))
            if x.op == 'lin' and c == (1 << c.bit_length())-1:
                # low-bits mask: coefficients modulo 2^k
                kk = c + 1
                cc, cs = x.k
                if cc % kk != cc or any(co % kk != co for co in cs):
                    y = _lin(cc % kk, [(co % kk, z) for co, z in zip(cs, x.args)], n)
                    return and_(y, const(c, n))
        unit = M
    else: unit = 0
    if c != unit or not items:
        items = [const(c, n)] + items
    if len(items) == 1: return items[0]
    items.sort(key=lambda t: (t.op != 'c', t.id))
    return mk(op, items, None, n)
def and_(a, b): return _bitop('and', (a, b), a.s)
def or_(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'shl' and is_c(x.args[1]) and x.args[0].op == 'lshr' and x.args[0].args[1] is x.args[1]:
            z, k = x.args[0].args[0], x.args[1].k
            low = and_(z, const(mask(k), z.s))
            if y is low or y is trunc(z, k) or y is zext(trunc(z, k), z.s) or y is zext(trunc(low, k), z.s): return z
    return _bitop('or', (a, b), a.s)
def xor(a, b): return _bitop('xor', (a, b), a.s)
def bvnot(a): return xor(a, const(mask(a.s), a.s))
def shl(a, b):
    n = a.s
    if b.op == 'c':
        if b.k >= n: return const(0, n)
        if b.k == 0: return a
        if a.op == 'c': return const(a.k << b.k, n)
        if a.op == 'lin' or a.op == 'mul': return _lin(0, [(1 << b.k, a)], n)
        if a.op == 'shl' and is_c(a.args[1]): return shl(a.args[0], const(a.args[1].k+b.k, n))
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], shl(a.args[1], b), shl(a.args[2], b))
    return mk('shl', (a, b), None, n)
def lshr(a, b):
    n = a.s
    if b.op == 'c':
        if b.k >= n: return const(0, n)
        if b.k == 0: return a
        if a.op == 'c': return const(a.k >> b.k, n)
        if urange(a)[1] >> b.k == 0: return const(0, n)
        if a.op == 'lshr' and is_c(a.args[1]): return lshr(a.args[0], const(a.args[1].k+b.k, n))
        if a.op in ('xor', 'or', 'and') and any(is_c(x) for x in a.args) :
            return _bitop(a.op, [lshr(x, b) for x in a.args], n)
        if a.op == 'shl' and is_c(a.args[1]) and a.args[1].k >= b.k and urange(a.args[0])[1] << a.args[1].k <= mask(n):
            return shl(a.args[0], const(a.args[1].k - b.k, n))
        if a.op == 'or':
            ys = [lshr(x, b) for x in a.args]
            if sum(1 for x, y in zip(a.args, ys) if y.op != 'lshr') >= len(ys) - 1: return _bitop('or', ys, n)
    return mk('lshr', (a, b), None, n)
def ashr(a, b):
    n = a.s
    if b.op == 'c':
        if b.k == 0: return a
        if a.op == 'c': return const(sgn(a.k, n) >> min(b.k, n), n)
    if urange(a)[1] < 1 << (n-1): return lshr(a, b)
    return mk('ashr', (a, b), None, n)
def zext(a, n):
    if a.s == n: return a
    if a.s == 0: return ite(a, const(1, n), const(0, n))
    if a.op == 'c': return const(a.k, n)
    if a.op == 'zext': return zext(a.args[0], n)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], const(a.args[1].k, n), const(a.args[2].k, n))
    if a.op == 'trunc' and a.args[0].s == n and urange(a.args[0])[1] <= mask(a.s): return a.args[0]
    if a.op == 'lin':
        # no-overflow unsigned sum distributes
        c, cs = a.k; hi = c
        for co, x in zip(cs, a.args): hi += co*urange(x)[1]
        if hi <= mask(a.s):
            return _lin(c, [(co, zext(x, n)) for co, x in zip(cs, a.args)], n)
    return mk('zext', (a,), None, n)
def sext(a, n):
    if a.s == n: return a
    if a.s == 0: return ite(a, const(-1, n), const(0, n))
    if a.op == 'c': return const(sgn(a.k, a.s), n)
    if urange(a)[1] < 1 << (a.s-1): return zext(a, n)
    if a.op == 'sext': return sext(a.args[0], n)
    if a.op == 'zext': return zext(a.args[0], n)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return mk('sext', (a,), None, n)
def trunc(a, n):
    if a.s == n: return a
    if n == 0: raise ValueError
    if a.op == 'c': return const(a.k, n)
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if x.s == n: return x
        if x.s > n: return trunc(x, n)
        return zext(x, n) if a.op == 'zext' else sext(x, n)
    if a.op == 'trunc': return trunc(a.args[0], n)
    if a.op == 'lin' and not any(x.op in ('mul', 'udiv', 'urem') for x in a.args):
        return _lin(a.k[0], [(co, trunc(x, n)) for co, x in zip(a.k[1], a.args)], n)
    if a.op in ('and', 'or', 'xor'):
        return _bitop(a.op, [trunc(x, n) for x in a.args], n)
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], trunc(a.args[1], n), trunc(a.args[2], n))
    if a.op == 'concat':
        lo = a.args[1]
        if lo.s == n: return lo
        if lo.s > n: return trunc(lo, n)
    return mk('trunc', (a,), None, n)
def extract(a, h, l):
    n = h - l + 1
    if l == 0: return trunc(a, n)
    if a.op == 'c': return const(a.k >> l, n)
    if a.op == 'concat':
        lo = a.args[1]
        if l >= lo.s: return extract(a.args[0], h-lo.s, l-lo.s)
        if h < lo.s: return extract(lo, h, l)
    if a.op == 'extract': return extract(a.args[0], h+a.k[1], l+a.k[1])
    if a.op == 'zext':
        if l >= a.args[0].s: return const(0, n)
        if h < a.args[0].s: return extract(a.args[0], h, l)
    return mk('extract', (a,), (h, l), n)
def concat(hi, lo):
    if hi.op == 'c' and lo.op == 'c': return const(hi.k << lo.s | lo.k, hi.s + lo.s)
    if hi.op == 'c' and hi.k == 0: return zext(lo, hi.s+lo.s)
    # re-join
    def parts(t):
        if t.op == 'extract': return t.args[0], t.k[0], t.k[1]
        if t.op == 'trunc': return t.args[0], t.s-1, 0
        return t, t.s-1, 0
    x, h1, l1 = parts(hi); y, h2, l2 = parts(lo)
    if x is y and l1 == h2+1: return extract(x, h1, l2)
    return mk('concat', (hi, lo), None, hi.s+lo.s)
def ult(a, b):
    if a is b: return FALSE
    la, ha = urange(a); lb, hb = urange(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    if a.op == 'zext' and b.op == 'zext' and a.args[0].s == b.args[0].s: return ult(a.args[0], b.args[0])
    if a.op == 'zext' and b.op == 'c': return ult(a.args[0], const(b.k, a.args[0].s))  # b.k in range (else folded)
    if b.op == 'zext' and a.op == 'c': return ult(const(a.k, b.args[0].s), b.args[0])
    if b.op == 'c' and b.k == 1: return eq(a, const(0, a.s))
    if a.op == 'c' and a.k == 0: return bnot(eq(b, a))
    if b.op == 'c' and b.k == mask(b.s): return bnot(eq(a, b))
    return mk('ult', (a, b), None, 0)
def ule(a, b): return bnot(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    n = a.s; h = 1 << (n-1)
    if a.op == 'c' and b.op == 'c': return boolc(sgn(a.k, n) < sgn(b.k, n))
    la, ha = urange(a); lb, hb = urange(b)
    if ha < h and hb < h: return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].s == b.args[0].s: return slt(a.args[0], b.args[0])
    return mk('slt', (a, b), None, 0)
def sle(a, b): return bnot(slt(b, a))
def popcnt(a):
    if is_c(a): return const(bin(a.k).count('1'), a.s)
    r = const(0, a.s)
    for i in range(a.s): r = add(r, and_(lshr(a, const(i, a.s)), const(1, a.s)))
    return r
def bit(a, i):
    return bnot(eq(and_(a, const(1 << i, a.s)), const(0, a.s)))
def ctlz(a):
    n = a.s
    if is_c(a): return const(n - a.k.bit_length(), n)
    r = const(n, n)
    for i in range(n):
        r = ite(ule(const(1 << i, n), a), const(n-1-i, n), r)
    return r
def cttz(a):
    n = a.s
    if is_c(a): return const(n if a.k == 0 else (a.k & -a.k).bit_length()-1, n)
    r = const(n, n)
    for i in range(n-1, -1, -1):
        r = ite(bit(a, i), const(i, n), r)
    return r

# ------------------------------------------------------------------ FP
def f2b(x, s):
    if s == -64: return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]
def b2f(b, s):
    if s == -64: return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]
import numpy as _np
_np.seterr(all='ignore')
def _np1(b, s):
    return _np.uint64(b).view(_np.float64) if s == -64 else _np.uint32(b).view(_np.float32)
def _npb(x, s):
    return int(_np.float64(x).view(_np.uint64)) if s == -64 else int(_np.float32(x).view(_np.uint32))
def fisnan_c(t): 
    return math.isnan(b2f(t.k, t.s))
def fop(op, a, b=None):
    s = a.s
    if s in (-32, -64) and is_c(a) and (b is None or is_c(b)):
        x = _np1(a.k, s)
        if op == 'fneg': return const(a.k ^ (1 << (-s-1)), s)
        y = _np1(b.k, s)
        r = {'fadd': lambda: x+y, 'fsub': lambda: x-y, 'fmul': lambda: x*y, 'fdiv': lambda: x/y}[op]()
        return const(_npb(r, s), s)
    if op == 'fneg':
        if a.op == 'fneg': return a.args[0]
        return mk(op, (a,), None, s)
    if op in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
    return mk(op, (a, b), None, s)
def fcmp(op, a, b):
    """op in feq flt fle (ordered)"""
    if is_c(a) and is_c(b) and a.s != -80:
        x, y = b2f(a.k, a.s), b2f(b.k, b.s)
        return boolc({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op])
    if op == 'feq' and a.id > b.id: a, b = b, a
    return mk(op, (a, b), None, 0)
def fisnan(a):
    if is_c(a) and a.s != -80: return boolc(fisnan_c(a))
    return mk('fnan', (a,), None, 0)
def itof(a, s, signed):
    if is_c(a) and s in (-32, -64):
        v = sgn(a.k, a.s) if signed else a.k
        return const(_int2f(v, s), s)
    return mk('sitofp' if signed else 'uitofp', (a,), None, s)
def _int2f(v, s):
    # exact rounding to nearest even for arbitrary ints
    if v == 0: return 0
    p = 53 if s == -64 else 24
    neg_, m = (v < 0), abs(v)
    e = m.bit_length()
    if e > p:
        sh = e-p; q = m >> sh; r = m & mask(sh); half = 1 << (sh-1)
        if r > half or (r == half and q & 1): q += 1
        m = q << sh
    x = float(m)
    return f2b(-x if neg_ else x, s)
def ftoi(a, n, signed):
    if is_c(a) and a.s in (-32, -64):
        x = b2f(a.k, a.s)
        if x == x and abs(x) < 1e300:
            v = int(x)
            lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if signed else (0, mask(n))
            if lo <= v <= hi: return const(v, n)
    return mk('fptosi' if signed else 'fptoui', (a,), None, n)
def fconv(a, s):
    if a.s == s: return a
    if is_c(a) and a.s in (-32, -64) and s in (-32, -64):
        return const(_npb(_np.float64(_np1(a.k, a.s)) if s == -64 else _np.float32(_np1(a.k, a.s)), s), s)
    return mk('fpconv', (a,), None, s)
def fbits(a):   # fp -> bv
    if is_c(a): return const(a.k, -a.s)
    if a.op == 'fofbits': return a.args[0]
    return mk('fbits', (a,), None, -a.s)
def fofbits(a):
    if is_c(a): return const(a.k, -a.s)
    if a.op == 'fbits': return a.args[0]
    return mk('fofbits', (a,), None, -a.s)
def fun(name, args, s):
    """named function: fp ops (sqrt, floor, trunc, ceil, round, fabs) or uninterpreted"""
    if name in ('fabs', 'floor', 'ceil', 'ftrunc', 'sqrt') and is_c(args[0]) and args[0].s in (-32, -64):
        x = _np1(args[0].k, args[0].s)
        r = {'fabs': _np.abs, 'floor': _np.floor, 'ceil': _np.ceil, 'ftrunc': _np.trunc, 'sqrt': _np.sqrt}[name](x)
        return const(_npb(r, s), s)
    return mk('fn', args, name, s)

# ------------------------------------------------------------------ traversal
def subterms(roots):
    """topological order (children first)"""
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out

def rebuild(t, args):
    op = t.op; k = t.k
    if op in ('c', 'v'): return t
    if op == 'not': return bnot(args[0])
    if op == 'and_': return band(*args)
    if op == 'or_': return bor(*args)
    if op == 'ite': return ite(*args)
    if op == 'eq': return eq(*args)
    if op == 'lin': return _lin(k[0], list(zip(k[1], args)), t.s)
    if op in ('and', 'or', 'xor'): return _bitop(op, args, t.s)
    f = _simple.get(op)
    if f: return f(*args)
    if op in ('zext', 'sext', 'trunc'): return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](args[0], t.s)
    if op == 'extract': return extract(args[0], *k)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fop(op, *args)
    if op == 'fneg': return fop(op, args[0])
    if op in ('feq', 'flt', 'fle'): return fcmp(op, *args)
    if op == 'fnan': return fisnan(args[0])
    if op in ('sitofp', 'uitofp'): return itof(args[0], t.s, op == 'sitofp')
    if op in ('fptosi', 'fptoui'): return ftoi(args[0], t.s, op == 'fptosi')
    if op == 'fpconv': return fconv(args[0], t.s)
    if op == 'fbits': return fbits(args[0])
    if op == 'fofbits': return fofbits(args[0])
    if op == 'fn': return fun(k, args, t.s)
    return mk(op, args, k, t.s)
_simple = dict(mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr,
               concat=concat, ult=ult, slt=slt)

def subst(roots, m, memo=None):
    """m: {id: replacement}"""
    memo = {} if memo is None else memo
    for t in subterms(roots):
        if t.id in memo: continue
        if t.id in m: memo[t.id] = m[t.id]; continue
        na = [memo[a.id] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)): memo[t.id] = t
        else:
            r = rebuild(t, na)
            memo[t.id] = m.get(r.id, r)
    return [memo[r.id] for r in roots]

class NoEval(Exception): pass
def evaluate(roots, env, ufs=None):
    """env: {var name: value (int; fp as bits)}; missing -> 0. returns {id: value}"""
    val = {}
    for t in subterms(roots):
        op = t.op; s = t.s
        if op == 'c': val[t.id] = t.k; continue
        if op == 'v': val[t.id] = env.get(t.k, 0) & mask(abs(s) or 1); continue
        if op == 'fn' and not (t.k in _FPF):
            if ufs is None: raise NoEval(t.k)
            val[t.id] = ufs(t.k, [val[a.id] for a in t.args], s); continue
        r = rebuild(t, [const(val[a.id], a.s) for a in t.args])
        if r.op != 'c': raise NoEval(op)
        val[t.id] = r.k
    return val
_FPF = ('fabs', 'floor', 'ceil', 'ftrunc', 'sqrt')
