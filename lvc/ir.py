"""Parser for the textual LLVM 18 IR produced by clang (opaque pointers)."""
import re, struct

class Ty:
    __slots__ = ('k', 'n', 'el', 'packed', 'name', '_size', '_al', '_offs')
    def __init__(s, k, n=0, el=None, packed=False, name=None):
        s.k = k; s.n = n; s.el = el; s.packed = packed; s.name = name; s._size = None; s._al = None; s._offs = None
    def __repr__(s): return '%s%s' % (s.k, s.n or s.name or '')
VOID = Ty('void'); PTR = Ty('ptr'); F32 = Ty('f', 32); F64 = Ty('f', 64); F80 = Ty('f', 80); LABEL = Ty('label'); META = Ty('meta')
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty('i', n)
    return _ints[n]

def align(t):
    if t._al is None:
        if t.k == 'i': t._al = min(max(1, 1 << ((t.n+7)//8-1).bit_length()), 16)
        elif t.k == 'ptr': t._al = 8
        elif t.k == 'f': t._al = {32: 4, 64: 8, 80: 16}[t.n]
        elif t.k == 'a': t._al = align(t.el)
        elif t.k == 's': t._al = 1 if t.packed or not t.el else max(align(e) for e in t.el)
        else: raise Exception('align '+t.k)
    return t._al
def size(t):
    if t._size is None:
        if t.k == 'i':
            b = (t.n+7)//8; a = align(t); t._size = (b+a-1)//a*a
        elif t.k == 'ptr': t._size = 8
        elif t.k == 'f': t._size = {32: 4, 64: 8, 80: 16}[t.n]
        elif t.k == 'a': t._size = t.n*size(t.el)
        elif t.k == 's': offsets(t)
        else: raise Exception('size '+t.k)
    return t._size
def offsets(t):
    if t._offs is None:
        o = 0; r = []
        for e in t.el:
            a = 1 if t.packed else align(e)
            o = (o+a-1)//a*a
            r.append(o); o += size(e)
        a = align(t)
        t._size = (o+a-1)//a*a
        t._offs = r
    return t._offs

tok_re = re.compile(r'''\s+|;[^\n]*|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<gid>[@%](?:"(?:[^"\\]|\\.)*"|[\w.$-]+))|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|0x[KHMLR]?[0-9A-Fa-f]+)|(?P<meta>!(?:"[^"]*"|[\w.]*))|(?P<hash>\#\d+)|(?P<word>[A-Za-z_$][\w.$-]*)|(?P<p>\.\.\.|[\[\]{}()<>,=*:|^])''')
hexre = re.compile(r'0x[KHMLR]?[0-9A-Fa-f]+')
def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        if s.startswith('0x', pos):
            m = hexre.match(s, pos)
            out.append(m.group(0)); pos = m.end(); continue
        m = tok_re.match(s, pos)
        if not m: raise Exception('tok: '+s[pos:pos+60])
        pos = m.end()
        if m.lastgroup: out.append(m.group(m.lastgroup))
    return out

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'text')
    def __init__(s, op, res, ty, a, x=None): s.op = op; s.res = res; s.ty = ty; s.a = a; s.x = x; s.text = None
    def __repr__(s): return '%s = %s %s %s' % (s.res, s.op, s.a, s.x)
class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ')
class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'lines', 'loops', 'rpo', 'loopof', 'mod', 'prepared', 'attrs', 'plan')

# operand values: ('r', name) | ('i', int) | ('f', ty, bits) | ('g', name) | ('null',) | ('undef',) | ('zero',) | ('agg', ty, [vals]) | ('ce', op, ...)
PATTR = set('noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone nofree returned nest immarg swiftself noreturn nounwind dead_on_unwind writable nofpclass allocptr'.split())
class P:
    def __init__(s, mod, toks): s.m = mod; s.t = toks; s.i = 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s): s.i += 1; return s.t[s.i-1]
    def acc(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def exp(s, x):
        if s.next() != x: raise Exception('expected %s got %s in %s' % (x, s.t[s.i-1], ' '.join(s.t[:80])))
    def skip_parens(s):
        s.exp('('); d = 1
        while d:
            t = s.next()
            if t == '(': d += 1
            elif t == ')': d -= 1
    def attrs(s):
        while True:
            t = s.peek()
            if t in PATTR: s.i += 1
            elif t in ('align',):
                s.i += 1
                if s.peek() == '(': s.skip_parens()
                else: s.i += 1
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'captures', 'allocsize', 'elementtype', 'range', 'nofpclass', 'inalloca', 'preallocated', 'byref'):
                s.i += 1
                if s.peek() == '(': s.skip_parens()
            else: return
    def type(s):
        t = s.next(); m = s.m
        if t[0] == 'i' and t[1:].isdigit(): r = INT(int(t[1:]))
        elif t == 'ptr':
            r = PTR
            if s.peek() == 'addrspace': s.i += 1; s.skip_parens()
        elif t == 'void': r = VOID
        elif t == 'double': r = F64
        elif t == 'float': r = F32
        elif t == 'x86_fp80': r = F80
        elif t == 'label': r = LABEL
        elif t == 'metadata': r = META
        elif t[0] == '%': r = m.named(t)
        elif t == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); r = Ty('a', n, e)
        elif t == '{':
            r = Ty('s', 0, s.types('}'))
        elif t == '<':
            if s.acc('{'):
                r = Ty('s', 0, s.types('}'), True); s.exp('>')
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); r = Ty('vec', n, e)
        elif t == 'opaque': r = Ty('s', 0, [])
        else: raise Exception('type? %s in %s' % (t, ' '.join(s.t[max(0, s.i-10):s.i+10])))
        while s.peek() == '(' and False: pass
        return r
    def types(s, end):
        r = []
        if s.acc(end): return r
        while True:
            r.append(s.type())
            if s.acc(end): return r
            s.exp(',')
    def val(s, ty):
        t = s.next()
        if t[0] == '%': return ('r', t)
        if t[0] == '@': return ('g', t)
        if t in ('true', 'false'): return ('i', 1 if t == 'true' else 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'none': return ('undef',)
        if t[0] == 'c' and t[1:2] == '"':
            b = unescape(t[2:-1])
            return ('agg', ty, [('i', c) for c in b])
        if t == '[' or t == '{' or t == '<':
            end = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and s.peek() == '{': s.i += 1; end = '}'
            r = []
            if not s.acc(end):
                while True:
                    et = s.type(); r.append(s.val(et))
                    if s.acc(end): break
                    s.exp(',')
            if t == '<' and end == '}': s.exp('>')
            return ('agg', ty, r)
        if ty.k == 'f':
            if t.startswith('0x'):
                if ty.n == 80: return ('f', ty, int(t[3:], 16))
                b = int(t[2:], 16)
                if ty.n == 64: return ('f', ty, b)
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                return ('f', ty, struct.unpack('<I', struct.pack('<f', d))[0] if d == d else 0x7fc00000)
            d = float(t)
            if ty.n == 64: return ('f', ty, struct.unpack('<Q', struct.pack('<d', d))[0])
            return ('f', ty, struct.unpack('<I', struct.pack('<f', d))[0])
        if t[0] == '-' or t[0].isdigit(): return ('i', int(t))
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'): s.i += 1
            s.exp('('); bt = s.type(); s.exp(',')
            ops = []
            while True:
                if s.peek() == 'inrange': s.i += 1
                if s.peek() == '(' : s.skip_parens()
                et = s.type(); ops.append((et, s.val(et)))
                if s.acc(')'): break
                s.exp(',')
            return ('gep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            s.exp('('); et = s.type(); v = s.val(et); s.exp('to'); tt = s.type(); s.exp(')')
            return ('cast', t, et, v, tt)
        if t in ('add', 'sub', 'mul', 'xor', 'icmp'):
            while s.peek() in ('nsw', 'nuw'): s.i += 1
            pr = s.next() if t == 'icmp' else None
            s.exp('('); t1 = s.type(); a = s.val(t1); s.exp(','); t2 = s.type(); b = s.val(t2); s.exp(')')
            return ('bin', t, pr, t1, a, b)
        raise Exception('val? %s in %s' % (t, ' '.join(s.t)[:300]))

def unescape(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(x[i+1:i+3], 16)); i += 3
        else:
            out += x[i].encode('latin1', 'replace') if ord(x[i]) < 256 else x[i].encode(); i += 1
    return bytes(out)

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc nneg disjoint inbounds nusw samesign'.split())

class Module:
    def __init__(s, text):
        s.types = {}; s.globals = {}; s.funcs = {}; s.aliases = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                nm, rest = l.split(' = type ', 1)
                t = s.named(nm)
                tt = P(s, tokenize(rest)).type()
                t.k = tt.k; t.el = tt.el; t.packed = tt.packed; t.n = tt.n
            elif l.startswith('@'):
                s.globals[re.match(r'@("[^"]*"|[\w.$-]+)', l).group(0)] = l
            elif l.startswith('define'):
                j = i+1
                while lines[j] != '}': j += 1
                f = Func(); f.lines = lines[i+1:j]; f.prepared = False; f.mod = s
                s.header(f, l)
                s.funcs[f.name] = f
                i = j
            i += 1
        s.gcache = {}
    def named(s, nm):
        if nm not in s.types: s.types[nm] = Ty('s', 0, [], name=nm)
        return s.types[nm]
    def header(s, f, l):
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
        f.name = m.group(0)[:-1]
        p = P(s, tokenize(l[6:]))
        while p.peek() != f.name:
            t = p.peek()
            if t in ('ptr', 'void', 'double', 'float', 'x86_fp80', '{', '[', '<') or t[0] == '%' or (t[0] == 'i' and t[1:].isdigit()):
                f.ret = p.type()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'range'): p.i += 1; p.skip_parens()
            else: p.i += 1
        p.i += 1; p.exp('(')
        f.params = []; f.vararg = False
        if not p.acc(')'):
            while True:
                if p.acc('...'): f.vararg = True
                else:
                    ty = p.type(); p.attrs()
                    nm = p.next() if p.peek() and p.peek()[0] == '%' else '%%%d' % len(f.params)
                    f.params.append((ty, nm))
                if p.acc(')'): break
                p.exp(',')
    def gdef(s, name):
        """(type, init or None, constant)"""
        if name in s.gcache: return s.gcache[name]
        l = s.globals[name]
        p = P(s, tokenize(l.split(' = ', 1)[1]))
        ext = False
        while p.peek() not in ('global', 'constant', 'alias'):
            if p.peek() in ('external', 'extern_weak'): ext = True
            t = p.next()
            if p.peek() == '(': p.skip_parens()
        kind = p.next()
        ty = p.type()
        if kind == 'alias':
            p.exp(',')
            t2 = p.type(); r = ('alias', p.val(t2), None)
        else:
            init = None if ext else p.val(ty)
            r = (ty, init, kind == 'constant')
        s.gcache[name] = r
        return r

    def prepare(s, f):
        if f.prepared: return
        f.prepared = True
        f.blocks = {}; f.order = []
        cur = None
        lines = f.lines; i = 0
        nparam = sum(1 for _, nm in f.params if nm[1:].isdigit())
        while i < len(lines):
            l = lines[i]; i += 1
            if not l or l.lstrip().startswith(';'): continue
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"])*"|[\w.$-]+):', l)
                nm = '%' + m.group(1)
                cur = s.newblock(f, nm); continue
            if cur is None:
                cur = s.newblock(f, '%' + str(nparam))
            if l.strip().startswith('switch') and not l.rstrip().endswith(']'):
                while True:
                    l += ' ' + lines[i].strip(); i += 1
                    if lines[i-1].strip() == ']' or lines[i-1].strip().startswith(']'): break
            elif re.match(r'\s*(%[^=]*= )?invoke ', l) and ' to label' not in l:
                l += ' ' + lines[i].strip(); i += 1
            elif re.match(r'\s*%[^=]*= landingpad ', l):
                while i < len(lines) and re.match(r'\s+(catch|filter|cleanup)\b', lines[i]):
                    l += ' ' + lines[i].strip(); i += 1
            ins = s.instr(l)
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = [t.x[0]] if not t.a else list(t.x)
            elif t.op == 'switch': b.succ = [t.x[0]] + [x[1] for x in t.x[1]]
            elif t.op == 'invoke': b.succ = [t.x['normal']]
            else: b.succ = []
        s.analyse(f)
    def newblock(s, f, nm):
        b = Block(); b.name = nm; b.ins = []; b.phis = []; b.succ = []
        f.blocks[nm] = b; f.order.append(nm)
        return b
    def analyse(s, f):
        # RPO
        entry = f.order[0]
        seen = set(); post = []
        st = [(entry, iter(f.blocks[entry].succ))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(f.blocks[x].succ))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for x in f.blocks[b].succ: preds[x].append(b)
        # dominators
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in preds[b]:
                    if p in idom:
                        if nd is None: nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            nd = x
                if idom.get(b) != nd: idom[b] = nd; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for x in f.blocks[b].succ:
                if num[x] <= num[b]:
                    if not dom(x, b): raise Exception('irreducible loop in '+f.name)
                    body = loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y); st.extend(preds[y])
        # nest: innermost loop header of each block (excluding for headers: own loop)
        f.rpo = rpo; f.loops = loops
        f.loopof = {}
        # parent scope of each loop header
        inner = {}
        for b in rpo:
            c = [h for h in loops if b in loops[h]]
            c.sort(key=lambda h: len(loops[h]))
            inner[b] = c
        f.loopof = inner
        # plan: scope header (None=function) -> list of units in RPO: (block, is_loop)
        plan = {}
        for sc in [None]+list(loops):
            units = []
            for b in rpo:
                c = inner[b]
                chain = c[::-1]  # outermost first
                if sc is None:
                    if not chain: units.append((b, False))
                    elif chain[0] == b: units.append((b, True))
                else:
                    if sc not in chain: continue
                    k = chain.index(sc)
                    if k == len(chain)-1: units.append((b, False))
                    elif chain[k+1] == b: units.append((b, True))
            plan[sc] = units
        f.plan = plan

    def instr(s, l):
        if ', !' in l: l = l[:l.index(', !')]
        p = P(s, tokenize(l))
        res = None
        if len(p.t) > 1 and p.t[1] == '=': res = p.t[0]; p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in BIN:
            while p.peek() in FLAGS: p.i += 1
            ty = p.type(); a = p.val(ty); p.exp(','); b = p.val(ty)
            return Ins(op, res, ty, [a, b])
        if op in CAST:
            while p.peek() in FLAGS: p.i += 1
            ty = p.type(); a = p.val(ty); p.exp('to'); t2 = p.type()
            return Ins(op, res, t2, [a], ty)
        if op == 'fneg' or op == 'freeze':
            while p.peek() in FLAGS: p.i += 1
            ty = p.type(); return Ins(op, res, ty, [p.val(ty)])
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.i += 1
            pr = p.next(); ty = p.type(); a = p.val(ty); p.exp(','); b = p.val(ty)
            return Ins(op, res, ty, [a, b], pr)
        if op == 'select':
            while p.peek() in FLAGS: p.i += 1
            t0 = p.type(); c = p.val(t0); p.exp(','); t1 = p.type(); a = p.val(t1); p.exp(','); t2 = p.type(); b = p.val(t2)
            return Ins(op, res, t1, [c, a, b])
        if op == 'phi':
            while p.peek() in FLAGS: p.i += 1
            ty = p.type(); x = {}
            while True:
                p.exp('['); v = p.val(ty); p.exp(','); lb = p.next(); p.exp(']')
                x[lb] = v
                if not p.acc(','): break
            return Ins(op, res, ty, [], x)
        if op == 'br':
            if p.acc('label'): return Ins(op, None, None, [], [p.next()])
            ty = p.type(); c = p.val(ty); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
            return Ins(op, None, None, [c], [a, b])
        if op == 'switch':
            ty = p.type(); v = p.val(ty); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
            cs = []
            while not p.acc(']'):
                t1 = p.type(); cv = p.val(t1); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()))
            return Ins(op, None, ty, [v], (d, cs))
        if op == 'ret':
            ty = p.type()
            return Ins(op, None, ty, [] if ty.k == 'void' else [p.val(ty)])
        if op == 'unreachable': return Ins(op, None, None, [])
        if op == 'alloca':
            p.acc('inalloca'); ty = p.type(); cnt = None
            if p.acc(','):
                if p.peek() == 'align': pass
                else:
                    t2 = p.type(); cnt = (t2, p.val(t2))
            return Ins(op, res, ty, [], cnt)
        if op == 'load':
            p.acc('volatile'); ty = p.type(); p.exp(','); pt = p.type(); a = p.val(pt)
            return Ins(op, res, ty, [a])
        if op == 'store':
            p.acc('volatile'); ty = p.type(); v = p.val(ty); p.exp(','); pt = p.type(); a = p.val(pt)
            return Ins(op, None, ty, [v, a])
        if op == 'getelementptr':
            while p.peek() in FLAGS: p.i += 1
            bt = p.type(); p.exp(',')
            ops = []
            while True:
                t1 = p.type(); ops.append((t1, p.val(t1)))
                if not p.acc(','): break
            return Ins(op, res, bt, [o[1] for o in ops], [o[0] for o in ops])
        if op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in ('ccc', 'fastcc', 'coldcc') or (p.peek() in PATTR): p.i += 1
            p.attrs()
            ty = p.type()
            if p.peek() == '(':   # function type
                p.skip_parens()
            callee = p.val(PTR) if p.peek() not in ('asm',) else ('asm',)
            if callee == ('asm',):
                return Ins('asm', res, ty, [], l)
            p.exp('(')
            args = []; tys = []
            if not p.acc(')'):
                while True:
                    t1 = p.type(); p.attrs()
                    if t1.k == 'meta':
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            t = p.next()
                            if t in '({[': d += 1
                            elif t in ')}]': d -= 1
                        args.append(('undef',))
                    else: args.append(p.val(t1))
                    tys.append(t1)
                    if p.acc(')'): break
                    p.exp(',')
            x = dict(callee=callee, tys=tys)
            if op == 'invoke':
                while p.peek() != 'to': p.i += 1
                p.exp('to'); p.exp('label'); x['normal'] = p.next(); p.exp('unwind'); p.exp('label'); x['unwind'] = p.next()
            return Ins(op, res, ty, args, x)
        if op == 'extractvalue':
            ty = p.type(); v = p.val(ty); idx = []
            while p.acc(','): idx.append(int(p.next()))
            return Ins(op, res, ty, [v], idx)
        if op == 'insertvalue':
            ty = p.type(); v = p.val(ty); p.exp(','); t2 = p.type(); w = p.val(t2); idx = []
            while p.acc(','): idx.append(int(p.next()))
            return Ins(op, res, ty, [v, w], idx)
        if op in ('landingpad', 'resume', 'fence', 'cleanupret'):
            return Ins(op, res, None, [])
        return Ins('unsupported', res, None, [], l)
