#!/usr/bin/env python3-vt
"""Driver: python3-vt lvc/run.py PROP [--tier quick|thorough] [--only REGEX] [-v]
Compiles the contract files that state PROP against /repo's current headers, generates the proof
obligations from the resulting LLVM IR, discharges them with SMT back ends, replays failures natively."""
import sys, os, re, subprocess, time, json, tempfile, threading, multiprocessing as mp, traceback, shutil, glob, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ir, terms as tm, exec as E, solve as S, ring, anf, fixp
from terms import *
REPO = os.environ.get('VF_REPO', '/repo')
SAN = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,unreachable,return'
CL = ['clang++-18', '-std=gnu++17', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-ffp-contract=off',
      SAN, '-fsanitize-trap=all', '-fno-delete-null-pointer-checks', '-fno-access-control', '-DBOOST_RANDOM_VF', '-I%s/include' % REPO, '-I/opt/vp/guard', '-I%s/contracts' % ROOT]
NAT = ['g++', '-std=gnu++17', '-w', '-O1', '-g1', '-ffp-contract=off', '-fsanitize=undefined,address', '-fno-sanitize-recover=all',
       '-fno-access-control', '-D_GLIBCXX_ASSERTIONS', '-DVF_NATIVE', '-DBOOST_RANDOM_VF', '-I%s/include' % REPO, '-I/opt/vp/guard', '-I%s/contracts' % ROOT]
VERB = False; WRITEB = False; BASEF = os.path.join(ROOT, 'contracts', 'baseline.json')
def log(*a):
    print(*a, flush=True)
def vlog(*a):
    if VERB: print(*a, flush=True)
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class CompileError(Exception): pass
def compile_ir(src, prop, tmp, tag):
    ll0 = os.path.join(tmp, tag + '.0.ll'); ll = os.path.join(tmp, tag + '.ll')
    r = sh(CL + ['-S', '-emit-llvm', src, '-o', ll0])
    if r.returncode: raise CompileError('clang failed on %s:\n%s' % (src, r.stdout[-3000:]))
    vcs = re.findall(r'^define [^@]*@(vc_%s_\w+)\(' % prop, open(ll0).read(), re.M)
    keep = ','.join(vcs + ['vcopt_' + v[3:] for v in vcs])
    r = sh(['opt-18', '-S', '-passes=internalize,globaldce,function(sroa,simplifycfg,loop-simplify,lcssa)', '-internalize-public-api-list=' + keep, ll0, '-o', ll])
    if r.returncode: raise CompileError('opt failed: ' + r.stdout[-2000:])
    os.unlink(ll0)
    return ll, vcs
def compile_native(src, tmp, tag):
    out = os.path.join(tmp, tag + '.exe')
    r = sh(NAT + [src, os.path.join(HERE, 'native.cpp'), '-o', out])
    if r.returncode: raise CompileError('g++ failed on %s:\n%s' % (src, r.stdout[-3000:]))
    return out
def parse_opts(mod, vc):
    g = mod.globals.get('@vcopt_' + vc[3:])
    d = {}
    if g is None: return d
    ty, init, c = mod.gdef('@vcopt_' + vc[3:])
    txt = ''
    if init and init[0] == 'agg': txt = bytes(x[1] & 255 for x in init[2]).rstrip(b'\0').decode()
    for w in txt.split():
        k, _, v = w.partition('='); d[k] = v if v else True
    return d
DEM = {}
def demangle(nm):
    r = DEM.get(nm)
    return r if r is not None else nm
def fill_demangle(mod):
    names = list(mod.funcs) + list(getattr(mod, 'decls', {}))
    r = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    for n, d in zip(names, r.stdout.split('\n')): DEM[n] = d

def ir_hash(ll):
    """hash per contract of the IR of every function (transitively) reachable from it, attribute and string numbering removed"""
    body = {}; cur = None; glob_ = {}
    for l in open(ll):
        if l.startswith('define '):
            cur = re.search(r'@("[^"]+"|[\w.$]+)\(', l).group(1); body[cur] = [l]
        elif l.startswith('}'): cur = None
        elif cur is not None: body[cur].append(l)
        elif l.startswith('@'):
            m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)', l)
            if m: glob_[m.group(1)] = m.group(2)
    norm = lambda t: re.sub(r'@\.str[.\d]*|@__const\.[\w.]*', '@S', re.sub(r' #\d+|, !\w[^,\n]*', '', t))
    ref = re.compile(r'@("[^"]+"|[\w.$]+)'); H = {}; R = {}
    for f, b in body.items():
        t = ''.join(b); R[f] = set(ref.findall(t)); H[f] = hashlib.sha256(norm(t).encode()).hexdigest()
    for g, t in glob_.items():
        R[g] = set(ref.findall(t)); H[g] = '' if g.startswith('.str') or g.startswith('__PRETTY') else hashlib.sha256(norm(t).encode()).hexdigest()
    out = {}
    for f in body:
        if not f.startswith('vc_'): continue
        seen = {f}; st = [f]
        while st:
            for x in R.get(st.pop(), ()):
                if x not in seen and x in H: seen.add(x); st.append(x)
        opt = 'vcopt_' + f[3:]
        out[f[3:]] = hashlib.sha256('\n'.join(sorted(H[x] for x in seen) + [glob_.get(opt, '')]).encode()).hexdigest()[:24]
    return out
# ------------------------------------------------------------------ one VC
ENVN = {}
def native_env():
    e = dict(os.environ); e['UBSAN_OPTIONS'] = 'abort_on_error=1:print_stacktrace=0'; e['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0'
    return e
def native_search(exe, vc, secs, seed, maxit, out, dic=None):
    cmd = [exe, vc[3:], '--search', str(secs), str(seed), str(maxit), '--out', out]
    if dic: cmd += ['--dict', dic]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=secs + 90, env=native_env())
    except subprocess.TimeoutExpired: return 'timeout', '', 0
    if r.returncode == 0:
        m = re.search(r'PASS runs=(\d+) completed=(\d+)', r.stdout)
        return 'pass', r.stdout, int(m.group(2)) if m else 0
    return 'fail', r.stdout, 0
def native_replay(exe, vc, file):
    try: r = subprocess.run([exe, vc[3:], '--replay', file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120, env=native_env())
    except subprocess.TimeoutExpired: return 'timeout', ''
    return ('pass' if r.returncode == 0 else 'fail'), r.stdout

def solve_one(hyps, goals, backs, T, want_model=True):
    """(status, by, out, secs): unsat/sat/unknown, portfolio, first definitive wins"""
    has_fp = any(t.s < 0 for t in subterms(list(hyps) + list(goals)))
    cancel = threading.Event(); res = []
    def one(b):
        cmdf, ufp, kind = S.BACK[b]
        if ufp and not has_fp: return (b, 'unknown', 'skip', 0.0)
        try:
            if kind == 'int': txt = S.int_script(hyps, goals, axioms=())
            elif kind == 'abs':
                h, g = S.abstract_nl(hyps, goals); txt = S.script(h, g)
            else: txt = S.script(hyps, goals, ufp=ufp, model=want_model)
            if kind == 'int' and want_model: txt += '(get-model)\n'
        except Exception as ex: return (b, 'unknown', 'emit: %s' % ex, 0.0)
        st, out, t = S.run_solver(cmdf(T), txt, T + 2, cancel)
        if st == 'sat' and (ufp or kind == 'abs' or 'xorabs_' in txt): st = 'unknown'
        if st == 'error':
            if VERB: vlog('solver error', b, out[:300])
            st = 'unknown'
        if st in ('sat', 'unsat'): cancel.set()
        return (b, st, out, t)
    if len(backs) == 1: rs = [one(backs[0])]
    else:
        with ThreadPoolExecutor(len(backs)) as tp: rs = list(tp.map(one, backs))
    d = [r for r in rs if r[1] in ('sat', 'unsat')]
    if d: d.sort(key=lambda r: r[3]); return d[0][1], d[0][0], d[0][2], d[0][3]
    return 'unknown', '', '; '.join('%s:%s' % (r[0], r[2][:80]) for r in rs), max(r[3] for r in rs)

SIZE = {}
def tsize(t):
    r = SIZE.get(t.id)
    if r is None: r = SIZE[t.id] = len(subterms([t]))
    return r
VARS = {}
def tvars(t):
    r = VARS.get(t.id)
    if r is None: r = VARS[t.id] = frozenset(u.id for u in subterms([t]) if u.op == 'v')
    return r
def near(hyps, g):
    # hypotheses over the goal's own variables (dropping hypotheses is sound for a proof)
    v = tvars(g)
    return [h for h in hyps if tvars(h) <= v]
def run_vc(modn, vc, opts, exe, tier, seed, tmp):
    """executed in a worker process; returns result dict"""
    t0 = time.time()
    R = dict(vc=vc[3:], status='ok', obligations=0, discharged=0, by={}, failed=[], undecided=[], funcs=[], note='', secs=0, solver=0.0, bounded=bool(opts.get('bounded')), inv=[], assumed=[])
    mod = MODS[modn]
    backs = opts.get('backends', 'z3-bv,cvc5-bv,z3-ufp').split(',')
    tm.EQCANON[0] = bool(opts.get('eqcanon'))
    T = float(opts.get('timeout', 60)) * (3 if tier == 'thorough' else 1)
    searchT = float(opts.get('search', 1.5)) * (10 if tier == 'thorough' else 1)
    # native cross-check of contract and verifier on random inputs
    rf = os.path.join(tmp, vc + '.fail')
    res, out, done = native_search(exe, vc, searchT, seed, 10000000, rf)
    R['native_runs'] = done
    if res == 'fail':
        R['status'] = 'violation'; R['replay'] = rf if os.path.exists(rf) else None; R['why'] = out[-1500:]
        R['secs'] = time.time() - t0
        return R
    if opts.get('native_only'):
        R['note'] = 'bounded: native search only'; R['bounded'] = True; R['secs'] = time.time()-t0
        return R
    inv = set(); ob = None
    def feasible(pc, strict=False):
        tf = time.time()
        try: return feasible_(pc, strict)
        finally:
            if VERB and os.environ.get('VF_FEAS'): print('feas %.2fs %s' % (time.time()-tf, show(pc[-1], 6)[:200] if pc else ''))
    def feasible_(pc, strict=False):
        if opts.get('feas_small'):      # decide path feasibility from the small facts only (exploring an infeasible path is sound)
            pc = [h for h in pc[:-1] if tsize(h) <= int(opts['feas_small'])] + list(pc[-1:])
        if 'fixp' in opts and fixp.hasfp(band(*pc) if len(pc) > 1 else pc[0] if pc else TRUE):
            try: obsf = fixp.prepare(pc[:-1], bnot(pc[-1])) if strict else fixp.prepare(pc, FALSE)
            except Exception: obsf = None
            if obsf is not None:
                for h, g in obsf:
                    st, by, out, t = solve_one(h, [g], ['z3-bv', 'cvc5-bv'], 5 if not strict else 10, False); R['solver'] += t
                    if st != 'unsat': break
                else: return False
                if not strict: return True
        st, by, out, t = solve_one(list(pc), [FALSE], opts.get('feas', 'z3-bv').split(','), float(opts.get('feas_t', 5 if not strict else 10)), False)
        R['solver'] += t
        return st != 'unsat'
    tries = 0
    while True:
        tries += 1
        ex = E.Exec(mod, demangle, feasible, dict(max_unroll=int(opts.get('unroll', 80)), steps=int(opts.get('steps', 40000000)), force_after=int(opts.get('force_after', 0)), allpairs=bool(opts.get('allpairs')), feas_every=int(opts.get('feas_every', 6))))
        ex.inv_loops = set(inv); ex.deadline = t0 + float(opts.get('exec', 300)) * (2 if tier == 'thorough' else 1)
        st = E.St((), {}, FALSE)
        try:
            rv, st = ex.call('@' + vc, [], st)
            break
        except E.NeedInvariant as n:
            vlog('  %s: loop %s by invariant' % (vc, demangle(n.key[0])[:80]))
            if n.key in inv or tries > 30: R['note'] = 'loop needs an invariant: %s' % (n.key,); break
            inv.add(n.key)
        except (E.Unsupported, E.Budget, RecursionError) as e:
            R['note'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            R['note'] += ' in ' + ' > '.join(demangle(f)[:60] for f in ex.stack[-3:])
            if VERB: traceback.print_exc()
            break
    R['exec_secs'] = time.time() - t0
    R['funcs'] = sorted(demangle(f) for f in ex.funcs_seen if 'boost::random' in demangle(f) or 'random_device' in demangle(f))
    R['inv'] = ex.inv_report; R['nd'] = dict(ex.nd)
    R['assumed'] = sorted(ex.trusted)
    if R['note']:
        R['status'] = 'undecided'
        obs = []
        dump_dict(ex, tmp, vc)
        res, out, done = native_search(exe, vc, 10 if tier == 'quick' else 60, seed + 77, 100000000, rf, os.path.join(tmp, vc + '.dict'))
        if res == 'fail': R['status'] = 'violation'; R['replay'] = rf; R['why'] = out[-1500:]
        R['secs'] = time.time() - t0
        return R
    # vacuity
    vac = False
    if st is None and not opts.get('noend'):
        vac = True
    obs = ex.obs
    if not any(o.kind in ('assert', 'inv', 'throw') for o in obs) and not opts.get('memonly'):
        R['note'] = 'no assertion obligations were generated'; R['status'] = 'error'
        return R
    seen = {}; todo = []; ntriv = 0
    obs2 = []
    for o in obs:
        if o.goal.op == 'and_' and o.kind in ('assert', 'inv') and len(o.goal.args) <= 64:
            for g in o.goal.args: obs2.append(E.Ob(o.kind, o.name, o.pc, g, o.where))
        else: obs2.append(o)
    for o in obs2:
        goal = o.goal
        if goal is TRUE: ntriv += 1; continue
        key = (tuple(x.id for x in o.pc), goal.id)
        if key in seen: seen[key].append(o); ntriv += 1; continue
        seen[key] = [o]; todo.append(o)
    R['obligations'] = ntriv + len(todo)
    R['by'] = {'syntactic': ntriv} if ntriv else {}
    R['discharged'] = ntriv
    def done_ob(o, by):
        o.status = 'ok'; R['discharged'] += 1; R['by'][by] = R['by'].get(by, 0) + 1
    if opts.get('ring'):
        mods = [int(x.rstrip('ulUL'), 0) for x in opts['ring'].split(',')] if isinstance(opts['ring'], str) else []
        rest = []; ring.SPLIT[0] = bool(opts.get('split'))
        for o in todo:
            side = ring.prove(o.pc, o.goal, mods)
            ok = side is not None
            if ok:
                for pc, g in side:
                    s_, by, out, t = solve_one(list(pc), [g], backs, min(T, 20), False); R['solver'] += t
                    if s_ != 'unsat': ok = False; vlog('   ring side goal %s: %s\n      %s\n   => %s' % (o.name, s_, '\n      '.join(str(h)[:300] for h in pc[-8:]), str(g)[:900])); break
            if ok: done_ob(o, 'ring')
            else:
                rest.append(o)
        todo = rest
    if opts.get('anf'):
        AN = anf.Anf(); rest = []
        for o in todo:
            if anf.prove(o.pc, o.goal, AN): done_ob(o, 'anf')
            else: rest.append(o)
        todo = rest
    if opts.get('fixp'):
        rest = []; fb = opts['fixp'].split(',') if isinstance(opts['fixp'], str) else ['z3-bv', 'cvc5-bv']
        for o in todo:
            if not any(fixp.hasfp(x) for x in list(o.pc) + [o.goal]): rest.append(o); continue
            po = fixp.prepare(o.pc, o.goal); ok = po is not None
            if ok:
                for h, g in po:
                    s_, by, out, t = solve_one(near(h, g), [g], fb, min(T, 15), False); R['solver'] += t
                    if s_ != 'unsat': s_, by, out, t = solve_one(h, [g], fb, T, False); R['solver'] += t
                    if s_ != 'unsat':
                        ok = False; vlog('   fixp %s: %s %.1fs %s' % (o.name, s_, t, show(g, 4)[:200])); break
            if ok: done_ob(o, 'fixed-point+smt')
            else: rest.append(o)
        todo = rest
    # grouped attempt
    chunk = int(opts.get('chunk', 40))
    pend = []
    gT = min(T, float(opts.get('group', 20)))
    if chunk > 1:
        for i in range(0, len(todo), chunk):
            g = todo[i:i+chunk]
            if len(g) == 1: pend += g; continue
            s_, by, out, t = solve_one([], [bimp(band(*o.pc), o.goal) for o in g], backs, gT, False)
            R['solver'] += t
            if s_ == 'unsat':
                for o in g: done_ob(o, by)
            else: pend += g
    else: pend = todo
    failed = []; und = []
    nfail = 0
    lim = time.time() + float(opts.get('total', 400)) * (4 if tier == 'thorough' else 1)
    for o in pend:
        if failed and (time.time() - t0 > 120 or nfail >= 5): o.status = 'skip'; und.append(o); continue
        if time.time() > lim: o.status = 'skip'; und.append(o); continue
        s_, by, out, t = solve_one(list(o.pc), [o.goal], backs, T)
        R['solver'] += t
        vlog('   %s: %s %s -> %s %s %.1fs' % (vc, o.kind, o.name, s_, by, t))
        if s_ == 'unsat': done_ob(o, by)
        elif s_ == 'sat':
            nfail += 1
            o.status = 'sat'; o.model = S.parse_model(out); o.by = by; failed.append((o, out))
        else:
            o.status = 'unknown'; o.extra = out; und.append(o)
            if os.environ.get('VF_DUMP'): open(os.environ['VF_DUMP'], 'w').write(S.script(*S.abstract_nl(list(o.pc), [o.goal])))
    if failed:
        R['status'] = 'violation-candidate'
        for o, out in failed:
            f = os.path.join(tmp, vc + '.model')
            write_replay(f, vc, o, ex, out)
            res, nout = native_replay(exe, vc, f)
            ent = dict(kind=o.kind, name=o.name, where=o.where, replay=res, by=o.by)
            R['failed'].append(ent)
            if res == 'fail':
                R['status'] = 'violation'; R['replay'] = f; R['why'] = 'obligation "%s" [%s] refuted by %s; replay: %s' % (o.name, o.kind, o.by, nout[-600:])
                with open(f, 'a') as h: h.write('# obligation %s %s in %s refuted by %s\n# native: %s\n' % (o.kind, o.name, o.where, o.by, nout[-600:].replace('\n', '\n# ')))
                break
        if R['status'] != 'violation':
            dump_dict(ex, tmp, vc, failed)
            res, nout, done = native_search(exe, vc, 15 if tier == 'quick' else 90, seed + 99, 100000000, rf, os.path.join(tmp, vc + '.dict'))
            if res == 'fail': R['status'] = 'violation'; R['replay'] = rf; R['why'] = nout[-1500:]
            else:
                o, out = failed[0]
                R['status'] = 'noinput'; f = os.path.join(tmp, vc + '.ob'); R['replay'] = f
                R['why'] = 'obligation "%s" [%s] refuted by %s in %s' % (o.name, o.kind, o.by, o.where)
                write_replay(f, vc, o, ex, out, True)
    elif und:
        R['status'] = 'undecided'
        dump_dict(ex, tmp, vc, [(o, '') for o in und])
        res, nout, done = native_search(exe, vc, 20 if tier == 'quick' else 120, seed + 99, 100000000, rf, os.path.join(tmp, vc + '.dict'))
        if res == 'fail': R['status'] = 'violation'; R['replay'] = rf; R['why'] = nout[-1500:]
        R['undecided'] = [dict(kind=o.kind, name=o.name, where=o.where, out=(o.extra or '')[:200], st=o.status) for o in und]
    else:
        # vacuity: the end of the contract (or a throw) must be reachable
        cov = []
        if vac: cov.append(('end of contract', False))
        elif R['native_runs'] == 0 and st is not None:
            s_, by, out, t = solve_one(list(st.pc), [FALSE], backs, 20, False)
            if s_ == 'unsat': cov.append(('end of contract', False))
        for n, pcs in ex.covers.items():
            if n == 'throw': continue
            s_, by, out, t = solve_one([], [bnot(bor(*[band(*p) for p in pcs]))], backs, 20, False)
            if s_ == 'unsat': cov.append((n, False))
        if cov:
            R['status'] = 'vacuous'; R['note'] = 'unreachable: %s' % cov
    R['secs'] = time.time() - t0
    return R
def write_replay(f, vc, o, ex, out, full=False):
    with open(f, 'w') as h:
        h.write('vc %s\nwhy obligation %s: %s\n' % (vc[3:], o.kind, o.name))
        for k in ex.nd: h.write('in %s %d\n' % (k, (o.model or {}).get(k, 0)))
        if full:
            h.write('# failed obligation: %s "%s" in %s\n# refuted by %s; verifier output:\n' % (o.kind, o.name, o.where, o.by))
            h.write('\n'.join('# ' + l for l in out[:6000].split('\n')) + '\n')
def dump_dict(ex, tmp, vc, failed=()):
    cs = set()
    roots = []
    for o, _ in failed: roots += list(o.pc) + [o.goal]
    if not roots:
        for o in ex.obs[-50:]: roots += list(o.pc[-20:]) + [o.goal]
    for t in subterms(roots)[:200000]:
        if t.op == 'c' and t.s > 1: cs.add(t.k & mask(64))
        if t.op == 'lin': cs.add(t.k[0]); cs.add((-t.k[0]) & mask(t.s)); cs.update(t.k[1])
    with open(os.path.join(tmp, vc + '.dict'), 'w') as h:
        for c in sorted(cs)[:5000]: h.write('%d\n' % (c & mask(64)))
MODS = {}
def work(q, a):
    if os.environ.get('VF_STACK'): import faulthandler; faulthandler.dump_traceback_later(float(os.environ['VF_STACK']), repeat=True)
    sys.setrecursionlimit(1000000); threading.stack_size(512 << 20)
    box = []
    def body():
        try:
            if os.environ.get('VF_PROF'):
                import cProfile, pstats; pr = cProfile.Profile(); box.append(pr.runcall(run_vc, *a)); pstats.Stats(pr).sort_stats('tottime').print_stats(18)
            else: box.append(run_vc(*a))
        except BaseException as e:
            box.append(dict(vc=a[1][3:], status='error', note='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:], obligations=0, discharged=0, by={}, failed=[], undecided=[], funcs=[], secs=0, solver=0, inv=[], assumed=[], bounded=False))
    t = threading.Thread(target=body); t.start(); t.join()
    q.put(box[0])

def main():
    global VERB, WRITEB
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; jobs = 8
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i+1]
        if x == '--only': only = re.compile(a[i+1])
        if x == '-v': VERB = True
        if x == '--ring': ring.DEBUG[0] = True; anf.DEBUG[0] = 1; fixp.DEBUG[0] = 1
        if x == '--write-baseline': WRITEB = True
        if x == '-j': jobs = int(a[i+1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    files = sorted(f for f in glob.glob(ROOT + '/contracts/*.cpp') if re.search(r'\bVC\w*\(\s*%s\s*,' % prop, open(f).read()))
    tmp = tempfile.mkdtemp(prefix='lvc-%s-' % prop); S.TMP[0] = tmp
    rc = 2
    try: rc = drive(prop, tier, only, jobs, seed, t0, files, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
def known_findings():
    r = []
    f = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(f): r = json.load(open(f))
    return r
def drive(prop, tier, only, jobs, seed, t0, files, tmp):
    rdir = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    if not files: log('no contract file for', prop); return 2
    def comp(f):
        tag = os.path.basename(f)[:-4]
        with ThreadPoolExecutor(2) as tp:
            a = tp.submit(compile_ir, f, prop, tmp, tag); b = tp.submit(compile_native, f, tmp, tag)
            return f, a.result(), b.result()
    try:
        with ThreadPoolExecutor(4) as tp: cs = list(tp.map(comp, files))
    except CompileError as e:
        # the tree was edited so that a contract no longer binds to it (renamed member, changed signature): nothing is decided
        log(str(e)); log('UNDECIDED %s: a contract does not compile against /repo' % prop)
        json.dump(evidence(prop, tier, seed, [], 0, 0, {}, [], [], [], [], t0, files, []), open(ROOT + '/evidence/%s.json' % prop, 'w'), indent=1)
        return 0
    tasks = []; hashes = {}
    for f, (ll, vcs), exe in cs:
        hashes.update(ir_hash(ll))
        mod = ir.Module(open(ll).read()); MODS[f] = mod; fill_demangle(mod)
        for vc in vcs:
            o = parse_opts(mod, vc)
            if only and not only.search(vc): continue
            if o.get('tier') == 'thorough' and tier != 'thorough' and not only: continue
            tasks.append((f, vc, o, exe, tier, seed, tmp))
    tasks.sort(key=lambda t: -float(t[2].get('weight', 1)))
    vlog('compiled in %.1fs, %d contracts' % (time.time()-t0, len(tasks)))
    ctx = mp.get_context('fork'); q = ctx.Queue(); run = {}; results = []; todo = list(tasks)
    budget = float(os.environ.get('LVC_BUDGET', 780 if tier == 'quick' else 3000))
    while todo or run:
        while todo and len(run) < jobs:
            a = todo.pop(0); p = ctx.Process(target=work, args=(q, a)); p.start(); run[a[1][3:]] = (p, time.time(), a)
        try:
            r = q.get(timeout=0.5)
            p = run.pop(r['vc'])[0]; p.join()
            results.append(r)
            vlog('%-40s %-10s ob=%d/%d %s native=%s %.1fs %s' % (r['vc'], r['status'], r['discharged'], r['obligations'], r['by'], r.get('native_runs'), r['secs'], r.get('note') or ''))
            if VERB and r['status'] not in ('ok',):
                for k in ('failed', 'undecided', 'why', 'trace'):
                    if r.get(k): vlog('    ', k, r[k] if isinstance(r[k], str) else json.dumps(r[k][:4], indent=1))
        except Exception as e:
            if type(e).__name__ != 'Empty': raise
        for n, (p, ts, a) in list(run.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.3)
                if q.empty() and n in run:
                    run.pop(n); results.append(dict(vc=n, status='undecided', note='worker died (memory?)', obligations=0, discharged=0, by={}, failed=[], undecided=[], funcs=[], secs=time.time()-ts, solver=0, inv=[], assumed=[], bounded=False))
            elif time.time() - t0 > budget:
                os.system('pkill -9 -P %d 2>/dev/null' % p.pid); p.kill(); p.join(); run.pop(n)
                results.append(dict(vc=n, status='undecided', note='time budget', obligations=0, discharged=0, by={}, failed=[], undecided=[], funcs=[], secs=time.time()-ts, solver=0, inv=[], assumed=[], bounded=False))
        if time.time() - t0 > budget and todo:
            for a in todo: results.append(dict(vc=a[1][3:], status='undecided', note='time budget', obligations=0, discharged=0, by={}, failed=[], undecided=[], funcs=[], secs=0, solver=0, inv=[], assumed=[], bounded=False))
            todo = []
    # verdict
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'open']
    viol = []; und = []; err = []; nkf = []
    base = {}
    if os.path.exists(BASEF): base = json.load(open(BASEF))
    for r in results:
        b = base.get(r['vc']); h = hashes.get(r['vc'])
        if not b or b['status'] != 'ok' or WRITEB: continue
        if r['status'] in ('noinput', 'undecided', 'error', 'vacuous'):
            if b['hash'] == h:
                # same extracted program as the one that was proved: the solvers ran out of time, nothing was refuted
                if r['status'] != 'undecided': r['note'] = 'not re-proved in this run (%s)' % (r.get('why') or r.get('note'))
                r['status'] = 'undecided'
            elif r['status'] != 'noinput':
                # a contract that holds on the released code is no longer accepted for the changed code
                r['why'] = 'contract %s is no longer discharged for the changed code: %s' % (r['vc'], r.get('note') or '; '.join('%s "%s" in %s: %s' % (u['kind'], u['name'], u['where'], u['st']) for u in r['undecided'][:6]))
                if r['status'] == 'error' and r.get('trace'): r['why'] += '\n' + r['trace']
                r['status'] = 'noinput'; r['replay'] = None
    if WRITEB:
        for r in results: base[r['vc']] = dict(status=r['status'], hash=hashes.get(r['vc']))
        json.dump(dict(sorted(base.items())), open(BASEF, 'w'), indent=0)
    for r in results:
        if r['status'] in ('violation', 'noinput'):
            k = [x for x in kf if x['vc'] == r['vc']]
            if k: nkf.append((r, k[0])); continue
            viol.append(r)
        elif r['status'] == 'undecided': und.append(r)
        elif r['status'] in ('error', 'vacuous'): err.append(r)
    for k in kf:
        log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in und:
        log('UNDECIDED %s: %s' % (r['vc'], r.get('note') or ', '.join(sorted(set(u['name'] for u in r['undecided'])))[:300]))
    for r in err: log('ERROR %s: %s %s' % (r['vc'], r['status'], r.get('note'))); vlog(r.get('trace', ''))
    rep_of = {}
    for r in viol:
        dst = os.path.join(rdir, '%s.txt' % r['vc'])
        if r.get('replay') and os.path.exists(r['replay']): shutil.copy(r['replay'], dst)
        else: open(dst, 'w').write('vc %s\nwhy %s\n' % (r['vc'], r.get('why')))
        with open(dst, 'a') as h: h.write('# ' + (r.get('why') or '').replace('\n', '\n# ') + '\n')
        log('  %s: %s' % (r['vc'], (r.get('why') or '')[:600]))
        log('VIOLATION property=%s replay=%s%s' % (prop, dst, ' no-failing-input-found' if r['status'] == 'noinput' else ''))
    nob = sum(r['obligations'] for r in results); nd = sum(r['discharged'] for r in results)
    by = {}
    for r in results:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['funcs']))
    ev = evidence(prop, tier, seed, results, nob, nd, by, funcs, viol, und, err, t0, files, kf)
    if not only:
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        json.dump(ev, open(ROOT + '/evidence/%s.json' % prop, 'w'), indent=1)
    log('%s: %d contracts, %d obligations, %d discharged %s, %d functions, solver %.1fs, wall %.1fs' % (prop, len(results), nob, nd, by, len(funcs), sum(r['solver'] for r in results), time.time()-t0))
    if viol: return 1
    if err: return 2
    if not results: return 2
    return 0
def notes_for(prop):
    f = os.path.join(ROOT, 'contracts', 'assumptions.json')
    return json.load(open(f)).get(prop, []) if os.path.exists(f) else []
COMMON = ['clang 18 front end and opt-18 passes sroa/simplifycfg/loop-simplify/lcssa preserve C++ semantics (the verified text is the LLVM IR of the real headers, regenerated on every run)',
          'the verifier lvc (IR semantics, term simplifier, VC generator) is trusted; every contract is also executed natively on random inputs each run as a cross-check',
          'soundness of z3 / cvc5', 'compilation target x86-64, gnu++17, IEEE-754 round to nearest, -ffp-contract=off',
          'partial correctness for loops handled by invariant (termination is not proved)', 'system Boost 1.83 / libstdc++ inline code is verified through, not assumed; non-inline library functions are modelled as listed']
def evidence(prop, tier, seed, results, nob, nd, by, funcs, viol, und, err, t0, files, kf):
    proved = [r['vc'] for r in results if r['status'] == 'ok' and not r['bounded']]
    bounded = [r['vc'] for r in results if r['bounded']] + [r['vc'] for r in und]
    return dict(property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(obligations=nob, discharged=nd, checker_cmd='python3-vt lvc/run.py %s' % prop,
            trusted_base=COMMON, backends=by, functions_under_contract=funcs, functions=len(funcs),
            contracts=[dict(name=r['vc'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], seconds=round(r['secs'], 2), native_runs=r.get('native_runs', 0), loop_invariants=r['inv'], note=r.get('note', ''), bounded=r['bounded']) for r in results],
            proved_contracts=proved, bounded_or_undecided=bounded, solver_seconds=round(sum(r['solver'] for r in results), 1),
            sources=[os.path.relpath(f, ROOT) for f in files], native_executions=sum(r.get('native_runs', 0) or 0 for r in results),
            known_findings=[k['what'] for k in kf]),
        assumptions=notes_for(prop) + sorted(set(x for r in results for x in r['assumed'])),
        wall_s=round(time.time()-t0, 2),
        violations=len(viol))
main()
