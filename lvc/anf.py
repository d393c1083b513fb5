"""Boolean polynomial (algebraic normal form) back end: proves equalities of bit-vector terms built from
xor, and, or, constant shifts, selection and bit plumbing by normal form over GF(2).  Atoms are single bits
of variables and of terms it does not interpret, so a proof is sound whatever those terms are."""
from terms import *
import terms as tm
CAP = 4000
DEBUG = [0]
class Fail(Exception): pass
class Anf:
    def __init__(s):
        s.mono = {(): 0}; s.monos = [()]; s.cache = {}; s.atoms = {}
    def m(s, key):
        i = s.mono.get(key)
        if i is None: i = s.mono[key] = len(s.monos); s.monos.append(key)
        return i
    def atom(s, key):
        i = s.atoms.get(key)
        if i is None: i = s.atoms[key] = len(s.atoms)
        return 1 << s.m((i,))
    def bits_of(s, p):
        r = []
        while p:
            l = p & -p; r.append(l.bit_length() - 1); p ^= l
        return r
    def mul(s, a, b):
        if a == 0 or b == 0: return 0
        if a == 1: return b
        if b == 1: return a
        if a == b: return a
        A = s.bits_of(a); B = s.bits_of(b)
        if len(A) * len(B) > CAP * 4: raise Fail()
        r = 0
        for x in A:
            mx = s.monos[x]
            for y in B:
                my = s.monos[y]
                r ^= 1 << s.m(tuple(sorted(set(mx) | set(my))))
        return r
    def ite(s, c, a, b):
        d = a ^ b
        return b ^ s.mul(c, d) if d else b
    def bits(s, t):
        r = s.cache.get(t.id)
        if r is None:
            for u in subterms([t]):
                if u.id in s.cache: continue
                try: s.cache[u.id] = s.calc(u)
                except Fail:
                    if DEBUG[0]: print('anf at', show(u, 5)[:700], [[p.bit_count() for p in s.cache[a.id]][:70] for a in u.args])
                    raise
            r = s.cache[t.id]
        return r
    def opaque(s, t):
        if DEBUG[0] and t.op not in ('v',): print('anf opaque', t.op, t.k, t.s, show(t,3)[:300])
        if t.s == 0: return [s.atom((t.id, 0))]
        if t.s < 0: return None
        return [s.atom((t.id, i)) for i in range(t.s)]
    def calc(s, t):
        op = t.op; n = t.s
        A = [s.cache[a.id] for a in t.args]
        if op == 'c':
            if n < 0: return None
            return [(t.k >> i) & 1 for i in range(max(n, 1))]
        if any(a is None for a in A): return s.opaque(t)
        if op == 'v': 
            hi = urange(t)[1].bit_length() if n > 0 else 1
            o = s.opaque(t)
            return o
        if op == 'not': return [A[0][0] ^ 1]
        if op == 'and_' or op == 'and':
            r = A[0]
            for a in A[1:]: r = [s.mul(x, y) for x, y in zip(r, a)]
            return r
        if op == 'or_' or op == 'or':
            r = A[0]
            for a in A[1:]: r = [x ^ y ^ s.mul(x, y) for x, y in zip(r, a)]
            return r
        if op == 'xor':
            r = A[0]
            for a in A[1:]: r = [x ^ y for x, y in zip(r, a)]
            return r
        if op == 'ite': return [s.ite(A[0][0], x, y) for x, y in zip(A[1], A[2])] if n >= 0 else None
        if op == 'eq':
            if len(A[0]) <= 64:
                try:
                    r = 1; F = [x ^ y ^ 1 for x, y in zip(A[0], A[1])]
                    if any(f == 0 for f in F): return [0]
                    for f in sorted(F): r = s.mul(r, f)
                    return [r]
                except Fail: pass
            return s.opaque(t)
        if op == 'zext': return A[0] + [0] * (n - t.args[0].s)
        if op == 'sext': return A[0] + [A[0][-1]] * (n - t.args[0].s)
        if op == 'trunc': return A[0][:n]
        if op == 'extract': return A[0][t.k[1]:t.k[0] + 1]
        if op == 'concat': return A[1] + A[0]
        if op in ('shl', 'lshr', 'ashr') and is_c(t.args[1]):
            k = t.args[1].k
            if k >= n: return [0] * n if op != 'ashr' else [A[0][-1]] * n
            if op == 'shl': return [0] * k + A[0][:n - k]
            return A[0][k:] + [0 if op == 'lshr' else A[0][-1]] * k
        if op == 'pb': return s.opaque(t)
        if op == 'lin':
            c, cs = t.k
            if c == 0 and len(cs) == 1 and cs[0] == mask(n) and not any(A[0][1:]): return [A[0][0]] * n
            terms = [[(c >> i) & 1 for i in range(n)]]
            for co, a in zip(cs, A):
                co_s = sgn(co, n)
                if co_s == -1:
                    if not any(a[1:]): terms.append([a[0]] * n); continue
                    terms.append([x ^ 1 for x in a]); terms.append([1] + [0] * (n - 1)); continue
                if co_s <= 0 or co_s & (co_s - 1) or co_s.bit_length() > n: return s.opaque(t)
                k = co_s.bit_length() - 1
                terms.append([0] * k + a[:n - k])
            r = terms[0]
            for q in terms[1:]:
                if all(x == 0 or y == 0 for x, y in zip(r, q)): r = [x ^ y for x, y in zip(r, q)]; continue
                out = []; cy = 0
                try:
                    for x, y in zip(r, q):
                        out.append(x ^ y ^ cy); xy = x ^ y
                        cy = s.mul(x, y) ^ s.mul(xy, cy) if cy else s.mul(x, y)
                        if cy.bit_count() > 200: raise Fail()
                except Fail: return s.opaque(t)
                r = out
            return r
        if op == 'popcnt' or True: return s.opaque(t)
def prove(pc, goal, A=None):
    """True if goal is an identity (path condition used only through unit literals of single bits)"""
    A = A or Anf()
    try:
        if goal.op == 'eq' and goal.args[0].s > 0:
            x = A.bits(goal.args[0]); y = A.bits(goal.args[1])
            if x is None or y is None: return False
            if DEBUG[0] and x != y: print('anf differ', [(i, bin(p).count('1'), bin(q).count('1')) for i, (p, q) in enumerate(zip(x, y)) if p != q][:4])
            return x == y
        return A.bits(goal)[0] == 1
    except (Fail, RecursionError) as e:
        if DEBUG[0]: print('anf fail', repr(e))
        return False
