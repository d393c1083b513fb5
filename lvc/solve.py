"""SMT-LIB back end: emission, portfolio, caching."""
import subprocess, os, tempfile, time, re, threading, queue, hashlib
from terms import *
import terms as tm

Z3 = 'z3-new'
def sortname(s):
    if s == 0: return 'Bool'
    if s > 0: return '(_ BitVec %d)' % s
    return {-32: '(_ FloatingPoint 8 24)', -64: '(_ FloatingPoint 11 53)', -80: '(_ FloatingPoint 15 64)'}[s]
def q(n): return '|%s|' % n.replace('|', '_')
_b = {'mul': 'bvmul', 'udiv': 'bvudiv', 'urem': 'bvurem', 'sdiv': 'bvsdiv', 'srem': 'bvsrem', 'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr', 'concat': 'concat', 'ult': 'bvult', 'slt': 'bvslt', 'eq': '=', 'ite': 'ite', 'not': 'not',
      'feq': 'fp.eq', 'flt': 'fp.lt', 'fle': 'fp.leq', 'fnan': 'fp.isNaN', 'fneg': 'fp.neg'}
class Emit:
    """BV/FP emission. uf_fp: treat FP arithmetic as uninterpreted over bit patterns"""
    def __init__(s, ufp=False):
        s.ufp = ufp; s.decls = {}; s.body = []; s.name = {}; s.extra = []
        s.has_fp = False
    def srt(s, x):
        if s.ufp and x < 0: return '(_ BitVec %d)' % -x
        return sortname(x)
    def cst(s, t):
        if t.s == 0: return 'true' if t.k else 'false'
        if t.s > 0 or s.ufp: return '(_ bv%d %d)' % (t.k, abs(t.s))
        if t.s == -80:
            k = t.k; sign = k >> 79; ex = (k >> 64) & 0x7fff; man = k & mask(63)
            return '(fp #b%d #b%s #b%s)' % (sign, format(ex, '015b'), format(man, '063b'))
        eb, mb = (8, 23) if t.s == -32 else (11, 52)
        n = -t.s
        return '(fp #b%d #b%s #b%s)' % (t.k >> (n-1), format((t.k >> mb) & mask(eb), '0%db' % eb), format(t.k & mask(mb), '0%db' % mb))
    def uf(s, name, sorts, rs):
        nm = q(name)
        sg = '(declare-fun %s (%s) %s)' % (nm, ' '.join(s.srt(x) for x in sorts), s.srt(rs))
        s.decls[nm] = sg
        return nm
    def term(s, t):
        return s.name[t.id]
    def emit(s, roots):
        order = subterms(roots)
        ref = {}
        for t in order:
            for a in t.args: ref[a.id] = ref.get(a.id, 0)+1
        for r in roots: ref[r.id] = ref.get(r.id, 0)+1
        for t in order:
            if t.id in s.name: continue
            if t.op == 'c': s.name[t.id] = s.cst(t); continue
            if t.op == 'v':
                nm = q(t.k); s.decls[nm] = '(declare-fun %s () %s)' % (nm, s.srt(t.s))
                s.name[t.id] = nm; continue
            e = s.expr(t, [s.name[a.id] for a in t.args])
            if ref.get(t.id, 0) > 1 or len(e) > 2000:
                nm = 't%d' % t.id
                s.body.append('(define-fun %s () %s %s)' % (nm, s.srt(t.s), e))
                s.name[t.id] = nm
            else: s.name[t.id] = e
    def expr(s, t, a):
        op = t.op; n = t.s
        if op == 'pb':
            nm = q('pbase%d' % t.k); s.decls[nm] = '(declare-fun %s () (_ BitVec 64))' % nm; return nm
        if op in ('and_', 'or_'): return '(%s %s)' % (op[:-1], ' '.join(a))
        if op == 'lin':
            c, cs = t.k
            ps = []
            for co, x in zip(cs, a):
                if co == 1: ps.append(x)
                elif co == mask(n): ps.append('(bvneg %s)' % x)
                elif co & (co-1) == 0: ps.append('(bvshl %s (_ bv%d %d))' % (x, co.bit_length()-1, n))
                else: ps.append('(bvmul (_ bv%d %d) %s)' % (co, n, x))
            if c: ps.append('(_ bv%d %d)' % (c, n))
            return ps[0] if len(ps) == 1 else '(bvadd %s)' % ' '.join(ps)
        if op in ('and', 'or', 'xor'):
            return '(bv%s %s)' % (op, ' '.join(a))
        if op == 'zext': return '((_ zero_extend %d) %s)' % (n-t.args[0].s, a[0])
        if op == 'sext': return '((_ sign_extend %d) %s)' % (n-t.args[0].s, a[0])
        if op == 'trunc': return '((_ extract %d 0) %s)' % (n-1, a[0])
        if op == 'extract': return '((_ extract %d %d) %s)' % (t.k[0], t.k[1], a[0])
        if op in ('saddo', 'ssubo'):
            w = t.args[0].s; o = 'bvadd' if op == 'saddo' else 'bvsub'
            x = '(%s ((_ sign_extend 1) %s) ((_ sign_extend 1) %s))' % (o, a[0], a[1])
            return '(not (= ((_ extract %d %d) %s) ((_ extract %d %d) %s)))' % (w, w, x, w-1, w-1, x)
        if op in ('smulo', 'umulo'):
            w = t.args[0].s; e = 'sign_extend' if op == 'smulo' else 'zero_extend'
            x = '(bvmul ((_ %s %d) %s) ((_ %s %d) %s))' % (e, w, a[0], e, w, a[1])
            return '(not (= %s ((_ %s %d) ((_ extract %d 0) %s))))' % (x, e, w, w-1, x)
        if s.ufp:
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'feq', 'flt', 'fle', 'fnan', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpconv', 'fn'):
                nm = s.uf('%s_%s_%s_%d' % (op, t.k or '', '_'.join(str(x.s) for x in t.args), t.s), [x.s for x in t.args], t.s)
                return '(%s %s)' % (nm, ' '.join(a))
            if op in ('fbits', 'fofbits'): return a[0]
        if op in _b:
            return '(%s %s)' % (_b[op], ' '.join(a))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return '(fp.%s RNE %s %s)' % ({'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul', 'fdiv': 'div'}[op], a[0], a[1])
        fs = {-32: '8 24', -64: '11 53', -80: '15 64'}
        if op == 'sitofp': return '((_ to_fp %s) RNE %s)' % (fs[n], a[0])
        if op == 'uitofp': return '((_ to_fp_unsigned %s) RNE %s)' % (fs[n], a[0])
        if op == 'fptosi': return '((_ fp.to_sbv %d) RTZ %s)' % (n, a[0])
        if op == 'fptoui': return '((_ fp.to_ubv %d) RTZ %s)' % (n, a[0])
        if op == 'fpconv': return '((_ to_fp %s) RNE %s)' % (fs[n], a[0])
        if op == 'fofbits':
            if n == -80: raise Exception('fp80 bits')
            return '((_ to_fp %s) %s)' % (fs[n], a[0])
        if op == 'fbits':
            if t.args[0].s == -80: raise Exception('fp80 bits')
            nm = 'fb%d' % t.id
            s.decls[nm] = '(declare-fun %s () (_ BitVec %d))' % (nm, n)
            s.extra.append('(assert (= ((_ to_fp %s) %s) %s))' % (fs[-n], nm, a[0]))
            s.body.append(s.extra[-1])
            return nm
        if op == 'fn':
            k = t.k
            if k == 'sqrt': return '(fp.sqrt RNE %s)' % a[0]
            if k == 'fabs': return '(fp.abs %s)' % a[0]
            if k in ('floor', 'ceil', 'ftrunc'): return '(fp.roundToIntegral %s %s)' % ({'floor': 'RTN', 'ceil': 'RTP', 'ftrunc': 'RTZ'}[k], a[0])
            nm = s.uf('%s_%s_%d' % (k, '_'.join(str(x.s) for x in t.args), t.s), [x.s for x in t.args], t.s)
            return '(%s %s)' % (nm, ' '.join(a))
        raise Exception('emit '+op)

def script(hyps, goals, ufp=False, model=False):
    """unsat iff hyps |= and(goals)"""
    e = Emit(ufp)
    ng = bnot(band(*goals)) if goals else TRUE
    roots = list(hyps) + [ng]
    e.emit(roots)
    out = ['(set-option :produce-models true)' if model else '', '(set-logic ALL)']
    out += list(e.decls.values()) + e.body
    for r in roots:
        if r is TRUE: continue
        out.append('(assert %s)' % e.name[r.id])
    out.append('(check-sat)')
    if model: out.append('(get-model)')
    return '\n'.join(out) + '\n'

# ------------------------------------------------------------------ integers
class IntEmit:
    """BV terms as mathematical integers; wrap-around made explicit by (mod . 2^n) unless excluded by ranges."""
    def __init__(s, bounds=None):
        s.decls = {}; s.body = []; s.name = {}; s.rng = {}; s.facts = []; s.bounds = bounds or {}
        s.prods = {}
    def emit(s, roots):
        order = subterms(roots)
        for t in order:
            if t.id in s.name: continue
            n = t.s
            if n < 0: raise Exception('int: fp')
            e, r = s.expr(t)
            if t.op in ('c', 'v'): s.name[t.id] = e
            else:
                nm = 't%d' % t.id
                s.body.append('(define-fun %s () %s %s)' % (nm, 'Bool' if n == 0 else 'Int', e))
                s.name[t.id] = nm
            if n > 0:
                b = s.bounds.get(t.id)
                if b: r = (max(r[0], b[0]), min(r[1], b[1]))
                s.rng[t.id] = r
    def wrap(s, e, lo, hi, n):
        M = 1 << n
        if lo >= 0 and hi < M: return e, (lo, hi)
        if lo >= -M and hi < M:
            return '(let ((w %s)) (ite (< w 0) (+ w %d) w))' % (e, M), (0, M-1)
        if lo >= 0 and hi < 2*M:
            return '(let ((w %s)) (ite (>= w %d) (- w %d) w))' % (e, M, M), (0, M-1)
        return '(mod %s %d)' % (e, M), (0, M-1)
    def sg(s, t):
        """signed value expr and range"""
        n = t.s; lo, hi = s.rng[t.id]; x = s.name[t.id]; H = 1 << (n-1)
        if hi < H: return x, (lo, hi)
        if lo >= H: return '(- %s %d)' % (x, 1 << n), (lo-(1 << n), hi-(1 << n))
        return '(ite (>= %s %d) (- %s %d) %s)' % (x, H, x, 1 << n, x), (-H, H-1)
    def expr(s, t):
        op = t.op; n = t.s; A = t.args
        nm = [s.name[a.id] for a in A]; R = [s.rng.get(a.id) for a in A]
        if op == 'c': return (('true' if t.k else 'false') if n == 0 else str(t.k)), (t.k, t.k)
        if op == 'v':
            x = q(t.k); s.decls[x] = '(declare-fun %s () %s)' % (x, 'Bool' if n == 0 else 'Int')
            if n: s.facts.append('(assert (and (<= 0 %s) (<= %s %d)))' % (x, x, mask(n)))
            return x, (0, mask(n) if n else 1)
        if op in ('and_', 'or_'): return '(%s %s)' % (op[:-1], ' '.join(nm)), None
        if op == 'not': return '(not %s)' % nm[0], None
        if op == 'eq': return '(= %s %s)' % (nm[0], nm[1]), None
        if op == 'ite':
            if n == 0: return '(ite %s %s %s)' % tuple(nm), None
            return '(ite %s %s %s)' % tuple(nm), (min(R[1][0], R[2][0]), max(R[1][1], R[2][1]))
        if op == 'ult': return '(< %s %s)' % (nm[0], nm[1]), None
        if op == 'slt': return '(< %s %s)' % (s.sg(A[0])[0], s.sg(A[1])[0]), None
        if op == 'lin':
            c, cs = t.k
            # choose signed coefficients
            best = None
            for signed in (False, True):
                lo = hi = tm.sgn(c, n) if signed else c
                ps = []
                for co, x, (l, h) in zip(cs, nm, R):
                    if signed: co = tm.sgn(co, n)
                    lo += co*l if co > 0 else co*h; hi += co*h if co > 0 else co*l
                    ps.append(x if co == 1 else '(* %s %s)' % (co if co >= 0 else '(- %d)' % -co, x))
                cc = tm.sgn(c, n) if signed else c
                if cc: ps.append(str(cc) if cc > 0 else '(- %d)' % -cc)
                e = ps[0] if len(ps) == 1 else '(+ %s)' % ' '.join(ps)
                fits = lo >= 0 and hi <= mask(n)
                cand = (not fits, hi-lo, e, lo, hi)
                if best is None or cand[:2] < best[:2]: best = cand
            _, _, e, lo, hi = best
            return s.wrap(e, lo, hi, n)
        if op == 'mul':
            (l1, h1), (l2, h2) = R
            p = s.prod(nm[0], nm[1], R)
            return s.wrap(p, l1*l2, h1*h2, n)
        if op == 'udiv':
            (l1, h1), (l2, h2) = R
            if l2 > 0: return '(div %s %s)' % (nm[0], nm[1]), (l1//h2, h1//l2)
            return '(ite (= %s 0) %d (div %s %s))' % (nm[1], mask(n), nm[0], nm[1]), (0, mask(n))
        if op == 'urem':
            (l1, h1), (l2, h2) = R
            if h1 < l2: return nm[0], R[0]
            if l2 > 0: return '(mod %s %s)' % (nm[0], nm[1]), (0, min(h1, h2-1))
            return '(ite (= %s 0) %s (mod %s %s))' % (nm[1], nm[0], nm[0], nm[1]), (0, h1)
        if op in ('sdiv', 'srem'):
            x, (l1, h1) = s.sg(A[0]); y, (l2, h2) = s.sg(A[1])
            if l1 >= 0 and l2 > 0:
                return ('(div %s %s)' % (x, y), (l1//h2, h1//l2)) if op == 'sdiv' else ('(mod %s %s)' % (x, y), (0, min(h1, h2-1)))
            if l2 > 0:
                if op == 'sdiv':
                    return s.wrap('(let ((x %s) (y %s)) (ite (>= x 0) (div x y) (- (div (- x) y))))' % (x, y), l1, h1, n)
                return s.wrap('(let ((x %s) (y %s)) (ite (>= x 0) (mod x y) (- (mod (- x) y))))' % (x, y), -(h2-1), h2-1, n)
            if op == 'sdiv':
                return s.wrap('(let ((x %s) (y %s)) (let ((q (div (abs x) (abs y)))) (ite (= (>= x 0) (>= y 0)) q (- q))))' % (x, y), -max(abs(l1), abs(h1)), max(abs(l1), abs(h1)), n)
            return s.wrap('(let ((x %s) (y %s)) (let ((q (mod (abs x) (abs y)))) (ite (>= x 0) q (- q))))' % (x, y), -max(abs(l1), abs(h1)), max(abs(l1), abs(h1)), n)
        if op == 'shl' and is_c(A[1]): 
            k = A[1].k; l, h = R[0]; return s.wrap('(* %d %s)' % (1 << k, nm[0]), l << k, h << k, n)
        if op == 'lshr' and is_c(A[1]):
            k = A[1].k; l, h = R[0]; return '(div %s %d)' % (nm[0], 1 << k), (l >> k, h >> k)
        if op == 'ashr' and is_c(A[1]):
            x, (l, h) = s.sg(A[0]); k = A[1].k
            return s.wrap('(div %s %d)' % (x, 1 << k), l >> k, h >> k, n)
        if op in ('and', 'or') and n > 0 and all(r[1] <= 1 for r in R):
            return '(ite (%s %s) 1 0)' % (op, ' '.join('(= %s 1)' % x for x in nm)), (0, 1)
        if op == 'and' and len(A) == 2 and is_c(A[0]):
            m = A[0].k; l, h = R[1]
            if m & (m+1) == 0: return '(mod %s %d)' % (nm[1], m+1), (0, min(m, h))
            tz = (m & -m).bit_length()-1; b = m >> tz
            if b & (b+1) == 0:
                return '(* %d (mod (div %s %d) %d))' % (1 << tz, nm[1], 1 << tz, b+1), (0, m)
            # ~lowmask
            raise Exception('int: and')
        if op == 'xor' and len(A) == 2 and is_c(A[0]) and A[0].k == mask(n):
            l, h = R[1]; return '(- %d %s)' % (mask(n), nm[1]), (mask(n)-h, mask(n)-l)
        if op == 'xor' and len(A) == 2:
            def xc(c, y, yn):
                if c == 0: return yn
                f = 'xorabs_%d_%d' % (c, n)                    # abstraction: x ^ c = c at x = 0, unknown elsewhere (a model is not trusted)
                s.decls[f] = '(declare-fun %s (Int) Int)' % f
                s.facts2('(%s %s)' % (f, yn), n)
                return '(ite (= %s 0) %d (%s %s))' % (yn, c, f, yn)
            for x, y in ((0, 1), (1, 0)):
                if is_c(A[x]): return xc(A[x].k, A[y], nm[y]), (0, mask(n))
                u = A[x]; f = lambda k: k
                if u.op == 'lin' and len(u.args) == 1: f = lambda k, c=u.k[0], m=u.k[1][0]: (c + m * k) & mask(n); u = u.args[0]
                if u.op == 'ite' and is_c(u.args[1]) and is_c(u.args[2]):
                    return '(ite %s %s %s)' % (s.name[u.args[0].id], xc(f(u.args[1].k), A[y], nm[y]), xc(f(u.args[2].k), A[y], nm[y])), (0, mask(n))
        if op == 'or' and len(A) == 2:
            # disjoint bits?
            for x, y in ((0, 1), (1, 0)):
                k = tz_of(A[x])
                if R[y][1] < 1 << k:
                    return '(+ %s %s)' % (nm[0], nm[1]), (R[0][0]+R[1][0], R[0][1]+R[1][1])
            raise Exception('int: or')
        if op == 'zext': return nm[0], R[0]
        if op == 'sext':
            x, (l, h) = s.sg(A[0]); return s.wrap(x, l, h, n)
        if op == 'trunc':
            if R[0][1] <= mask(n): return nm[0], R[0]
            return '(mod %s %d)' % (nm[0], 1 << n), (0, mask(n))
        if op == 'extract':
            h_, l_ = t.k; l, h = R[0]
            e = '(div %s %d)' % (nm[0], 1 << l_)
            if h >> l_ <= mask(n): return e, (l >> l_, h >> l_)
            return '(mod %s %d)' % (e, 1 << n), (0, mask(n))
        if op == 'concat':
            k = A[1].s
            return '(+ (* %d %s) %s)' % (1 << k, nm[0], nm[1]), ((R[0][0] << k)+R[1][0], (R[0][1] << k)+R[1][1])
        if op in ('saddo', 'ssubo', 'smulo'):
            x, (l1, h1) = s.sg(A[0]); y, (l2, h2) = s.sg(A[1]); w = A[0].s
            e = '(%s %s %s)' % ({'saddo': '+', 'ssubo': '-', 'smulo': '*'}[op], x, y)
            return '(let ((w %s)) (or (< w (- %d)) (>= w %d)))' % (e, 1 << (w-1), 1 << (w-1)), None
        if op == 'umulo':
            w = A[0].s
            if R[0][1]*R[1][1] <= mask(w): return 'false', None
            return '(>= %s %d)' % (s.prod(nm[0], nm[1], R), 1 << w), None
        if op == 'fn':
            f = q('%s_%d' % (t.k, len(A)))
            s.decls[f] = '(declare-fun %s (%s) %s)' % (f, ' '.join('Bool' if a.s == 0 else 'Int' for a in A), 'Bool' if n == 0 else 'Int')
            e = '(%s %s)' % (f, ' '.join(nm))
            if n: s.facts2(e, n)
            return e, (0, mask(n) if n else 1)
        raise Exception('int: '+op)
    def facts2(s, e, n): s.body.append('(assert (and (<= 0 %s) (<= %s %d)))' % (e, e, mask(n)))
    def prod(s, a, b, R):
        e = '(* %s %s)' % ((a, b) if a <= b else (b, a))
        if e not in s.prods:
            s.prods[e] = 1
            (l1, h1), (l2, h2) = R
            s.body.append('(assert (and (<= %d %s) (<= %s %d)))' % (l1*l2, e, e, h1*h2))
        return e
def tz_of(t):
    """number of known trailing zero bits"""
    if t.op == 'c': return (t.k & -t.k).bit_length()-1 if t.k else t.s
    if t.op == 'shl' and is_c(t.args[1]): return t.args[1].k + tz_of(t.args[0])
    if t.op == 'lin':
        return min([((c & -c).bit_length()-1) + tz_of(a) for c, a in zip(t.k[1], t.args)] + ([tz_of(const(t.k[0], t.s))] if t.k[0] else []))
    if t.op == 'and' : return max(tz_of(a) for a in t.args)
    if t.op == 'zext': 
        k = tz_of(t.args[0]); return k
    if t.op == 'ite': return min(tz_of(t.args[1]), tz_of(t.args[2]))
    if t.op == 'concat': return tz_of(t.args[1]) if tz_of(t.args[1]) < t.args[1].s else t.args[1].s + tz_of(t.args[0])
    if t.op in ('xor', 'or'): return min(tz_of(a) for a in t.args)
    return 0

def rngfn(bounds):
    import terms as tm
    memo = {}
    def r(t):
        v = memo.get(t.id)
        if v is None:
            v = _r(t)
            b = bounds.get(t.id)
            if b: v = (max(v[0], b[0]), min(v[1], b[1]))
            memo[t.id] = v
        return v
    def _r(t):
        n = t.s; op = t.op; A = t.args
        full = (0, mask(n))
        if op == 'c': return (t.k, t.k)
        if op == 'zext': return r(A[0])
        if op == 'sext': x = r(A[0]); return x if x[1] < 1 << (A[0].s-1) else full
        if op == 'trunc':
            x = r(A[0]); return x if x[1] <= mask(n) else full
        if op == 'ite':
            a, b = r(A[1]), r(A[2]); return (min(a[0], b[0]), max(a[1], b[1]))
        if op == 'lin':
            for sg in (False, True):
                lo = hi = tm.sgn(t.k[0], n) if sg else t.k[0]
                for co, x in zip(t.k[1], A):
                    if sg: co = tm.sgn(co, n)
                    l, h = r(x)
                    lo += co*l if co > 0 else co*h; hi += co*h if co > 0 else co*l
                if lo >= 0 and hi <= mask(n): return (lo, hi)
            return full
        if op == 'mul':
            a, b = r(A[0]), r(A[1])
            return (a[0]*b[0], a[1]*b[1]) if a[1]*b[1] <= mask(n) else full
        if op == 'udiv' or (op == 'sdiv' and r(A[0])[1] < 1 << (n-1) and r(A[1])[1] < 1 << (n-1)):
            a, b = r(A[0]), r(A[1])
            return (a[0]//b[1], a[1]//b[0]) if b[0] > 0 else full
        if op == 'urem' or (op == 'srem' and r(A[0])[1] < 1 << (n-1) and r(A[1])[1] < 1 << (n-1)):
            a, b = r(A[0]), r(A[1])
            return (0, min(a[1], b[1]-1)) if b[0] > 0 else full
        if op == 'lshr' and is_c(A[1]): a = r(A[0]); return (a[0] >> A[1].k, a[1] >> A[1].k)
        if op == 'extract':
            a = r(A[0]); return (0, min(mask(n), a[1] >> t.k[1]))
        if op == 'and': return (0, min([r(x)[1] for x in A]))
        if op == 'shl' and is_c(A[1]):
            a = r(A[0]); return (a[0] << A[1].k, a[1] << A[1].k) if a[1] << A[1].k <= mask(n) else full
        if op == 'concat':
            a, b = r(A[0]), r(A[1]); return ((a[0] << A[1].s) + b[0], (a[1] << A[1].s) + b[1])
        return urange(t)
    return r

def path_bounds(hyps):
    """ranges of terms implied by simple hypotheses"""
    b = {}
    def up(t, lo, hi):
        l, h = b.get(t.id, (0, mask(t.s)))
        b[t.id] = (max(l, lo), min(h, hi))
    hyps = [x for h in hyps for x in (h.args if h.op == 'and_' else (h,))]
    for f in hyps:
        ng = f.op == 'not'; g = f.args[0] if ng else f
        if g.op == 'ult':
            x, y = g.args
            if not ng:
                if is_c(y): up(x, 0, y.k-1)
                if is_c(x): up(y, x.k+1, mask(y.s))
                if not is_c(x) and not is_c(y):
                    up(y, 1, mask(y.s)); up(x, 0, mask(x.s)-1)
            else:
                if is_c(x): up(y, 0, x.k)
                if is_c(y): up(x, y.k, mask(x.s))
        elif g.op == 'slt':
            x, y = g.args; H = 1 << (x.s-1)
            if not ng and is_c(x) and x.k < H-1+0 and x.k >= 0 and not x.k >> (x.s-1): up(y, x.k+1, H-1)
            if not ng and is_c(x) and x.k == mask(x.s): up(y, 0, H-1)
            if ng and is_c(y) and not y.k >> (x.s-1): up(x, y.k, H-1)
        elif g.op == 'eq' and not ng:
            x, y = g.args
            if x.s > 0:
                if is_c(y): up(x, y.k, y.k)
                if is_c(x): up(y, x.k, x.k)
        elif g.op == 'eq' and ng:
            x, y = g.args
            if x.s > 0:
                for p, c in ((x, y), (y, x)):
                    if is_c(c) and c.k == 0: up(p, 1, mask(p.s))
    return b

def int_script(hyps, goals, model=False, axioms=()):
    e = IntEmit(path_bounds(hyps))
    ng = bnot(band(*goals)) if goals else TRUE
    roots = list(hyps) + [ng]
    e.emit(roots)
    out = ['(set-logic ALL)'] + list(e.decls.values()) + e.facts + e.body
    for r in roots:
        if r is TRUE: continue
        out.append('(assert %s)' % e.name[r.id])
    out += list(axioms)
    out.append('(check-sat)')
    return '\n'.join(out) + '\n'

# ------------------------------------------------------------------ running
TMP = [None]
_running = set(); _rl = threading.Lock()
def run_solver(cmd, text, timeout, cancel=None):
    fd, fn = tempfile.mkstemp(suffix='.smt2', dir=TMP[0]); os.write(fd, text.encode()); os.close(fd)
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd + [fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with _rl: _running.add(p)
        try:
            if cancel is None:
                out, _ = p.communicate(timeout=timeout)
            else:
                dl = t0 + timeout
                while True:
                    try:
                        out, _ = p.communicate(timeout=0.15); break
                    except subprocess.TimeoutExpired:
                        if cancel.is_set() or time.time() > dl: raise
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); return 'unknown', 'timeout', time.time()-t0
        finally:
            with _rl: _running.discard(p)
    finally:
        os.unlink(fn)
    first = out.split('\n', 1)[0].strip()
    if first == 'timeout': first = 'unknown'
    if first not in ('sat', 'unsat', 'unknown'): return 'error', out, time.time()-t0
    return first, out, time.time()-t0
def abstract_nl(hyps, goals):
    """products and (non-constant) quotients become arbitrary values, the same term the same value: only proofs count"""
    hyps, goals = propagate(hyps, goals)
    m = {}
    for t in tm.subterms(list(hyps) + list(goals)):       # x & (2^k - 1)  ->  zext(trunc(x, k))
        if t.op == 'and' and t.s > 32 and any(tm.is_c(a) and a.k == 0xffffffff for a in t.args):
            r = [a for a in t.args if not (tm.is_c(a) and a.k == 0xffffffff)]
            x = r[0]
            for y in r[1:]: x = tm.and_(x, y)
            m[t.id] = tm.zext(tm.trunc(x, 32), t.s)
    if m:
        for _ in range(3):
            r = tm.subst(list(hyps) + list(goals), m); hyps, goals = r[:len(hyps)], r[len(hyps):]
    m = {}; ax = []
    for t in tm.subterms(list(hyps) + list(goals)):
        if t.s <= 1: continue
        if t.op == 'mul' or t.op in ('udiv', 'urem', 'sdiv', 'srem') and not tm.is_c(t.args[1]):
            m[t.id] = tm.fresh('nl', t.s)
            if t.op == 'urem': ax.append((t, m[t.id]))
    memo = {}
    r = tm.subst(list(hyps) + list(goals) + [t.args[1] for t, _ in ax], m, memo)
    h, g = r[:len(hyps)], r[len(hyps):len(hyps)+len(goals)]; d = r[len(hyps)+len(goals):]
    return h + [tm.bor(tm.eq(dd, tm.const(0, dd.s)), tm.ult(v, dd)) for (t, v), dd in zip(ax, d)], g
def propagate(hyps, goals, rounds=40):
    """substitute variables defined by hypotheses (v = t; a <= b and b <= a with a variable on one side)"""
    hyps = list(hyps); goals = list(goals)
    for _ in range(rounds):
        le = set(); m = None
        def orient(a, b):
            for x, y in ((a, b), (b, a)):
                if x.op == 'v' and x.s > 0 and not any(z is x for z in tm.subterms([y])): return {x.id: y}
            return None
        flat = []
        for h in hyps:
            if h.op == 'and': flat += list(h.args)
            else: flat.append(h)
        hyps = flat
        for h in hyps:
            if h.op == 'eq' and h.args[0].s > 0:
                m = orient(*h.args)
                if m: break
            if h.op == 'not' and h.args[0].op in ('ult', 'slt'):
                a, b = h.args[0].args
                if (h.args[0].op, b.id, a.id) in le:
                    m = orient(a, b)
                    if m: break
                le.add((h.args[0].op, a.id, b.id))
        if not m: break
        r = tm.subst(hyps + goals, m)
        hyps = [x for x in r[:len(hyps)] if x is not tm.TRUE]; goals = r[len(r) - len(goals):]
    return hyps, goals
BACK = {
 'z3-bv': (lambda T: [Z3, '-T:%d' % max(1, int(T)), '-memory:6000'], False, 'bv'),
 'z3-ufp': (lambda T: [Z3, '-T:%d' % max(1, int(T)), '-memory:6000'], True, 'bv'),
 'cvc5-bv': (lambda T: ['cvc5', '--tlimit=%d' % int(T*1000), '--produce-models'], False, 'bv'),
 'z3-abs': (lambda T: [Z3, '-T:%d' % max(1, int(T)), '-memory:6000'], False, 'abs'),
 'cvc5-abs': (lambda T: ['cvc5', '--tlimit=%d' % int(T*1000), '--produce-models'], False, 'abs'),
 'z3-int': (lambda T: [Z3, '-T:%d' % max(1, int(T)), '-memory:6000'], False, 'int'),
 'cvc5-int': (lambda T: ['cvc5', '--tlimit=%d' % int(T*1000), '--nl-ext-tplanes'], False, 'int'),
}
def parse_model(out):
    """values of 0-ary variables from z3/cvc5 get-model output"""
    env = {}
    txt = re.sub(r'\s+', ' ', out)
    for m in re.finditer(r'\(define-fun (\|[^|]*\||\S+) \(\) (\(_ BitVec \d+\)|Bool|\(_ FloatingPoint \d+ \d+\)|Float32|Float64|Int) (.*?)\)(?= \(define-fun| \)|$)', txt):
        nm = m.group(1).strip('|'); v = m.group(3).strip()
        if v in ('true', 'false'): env[nm] = int(v == 'true'); continue
        mm = re.match(r'#x([0-9a-f]+)', v)
        if mm: env[nm] = int(mm.group(1), 16); continue
        mm = re.match(r'#b([01]+)', v)
        if mm: env[nm] = int(mm.group(1), 2); continue
        mm = re.match(r'\(_ bv(\d+) \d+\)?', v)
        if mm: env[nm] = int(mm.group(1)); continue
        mm = re.match(r'\(fp #b([01]) #([bx])([0-9a-f]+) #([bx])([0-9a-f]+)\)?', v)
        if mm:
            def bits(k, x, w=None):
                return x if k == 'b' else ''.join(format(int(c, 16), '04b') for c in x)
            env[nm] = int(mm.group(1) + bits(mm.group(2), mm.group(3)) + bits(mm.group(4), mm.group(5)), 2); continue
        mm = re.match(r'\(_ ([+-])(zero|oo) (\d+) (\d+)\)?', v)
        if mm:
            sg = mm.group(1) == '-'; eb, sb = int(mm.group(3)), int(mm.group(4))
            x = (int(sg) << (eb+sb-1)) | ((mask(eb) << (sb-1)) if mm.group(2) == 'oo' else 0)
            env[nm] = x; continue
        mm = re.match(r'\(_ NaN (\d+) (\d+)\)?', v)
        if mm:
            eb, sb = int(mm.group(1)), int(mm.group(2)); env[nm] = (mask(eb) << (sb-1)) | (1 << (sb-2)); continue
        mm = re.match(r'\(- (\d+)\)?', v)
        if mm: env[nm] = -int(mm.group(1)); continue
        mm = re.match(r'(-?\d+)$', v)
        if mm: env[nm] = int(mm.group(1))
    return env
