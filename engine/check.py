"""Driver: check.py PROPERTY [--tier quick|thorough] | --replay FILE

Compiles the library and the property's harnesses from the current tree, executes
every job symbolically in worker processes, replays counterexamples natively,
cross-checks sampled paths against native runs and writes the evidence file."""
import ctypes, pickle, multiprocessing.connection as mpc
import sys, os, time, json, random, subprocess, signal, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, ll, sx, lin, terms as T, props

HERE = build.HERE
MODS = {}
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def path_samples(X, R, rng, models, rand):
    """Inputs with the outputs the executor predicts: solver models of paths, and
    random inputs located on the path that covers them."""
    out = []
    fin = [e for e in R.ends if e[0] in ('done', 'uncaught')]
    if not fin:
        return out, 0
    uncovered = 0
    for k in range(min(models, len(fin))):
        why, pc, inp, outs = fin[(k * len(fin)) // models if len(fin) > models else k]
        st = sx.State()
        e = None
        try:
            e = X.find(pc, 1, 1500)
        except sx.EngineError:
            pass
        if isinstance(e, dict):
            st.outs, st.inputs = outs, inp
            out.append((X.env_inputs(st, e), X.eval_outs(st, e), why))
    longest = max((e[2] for e in R.ends), key=len)
    for k in range(rand):
        env = {}
        for nm, w in longest:
            r, v = rng.random(), rng.getrandbits(w)
            if r < .3:
                v >>= rng.randrange(w)
            elif r < .5:
                v = (1 << w) - 1 - (v >> rng.randrange(w))
            env[nm] = v
        e = sx.Env(env)
        hit = None
        cache = {}
        try:
            for why, pc, inp, outs in R.ends:
                c, ok = pc, True
                while c is not None:
                    if not T.ev(c[1], e, cache):
                        ok = False
                        break
                    c = c[0]
                if ok and why in ('done', 'uncaught'):
                    hit = (why, inp, outs)
                    break
        except T.NoEval:
            continue
        if hit is not None:
            st = sx.State()
            st.outs, st.inputs = hit[2], hit[1]
            out.append((X.env_inputs(st, env), X.eval_outs(st, env), hit[0]))
        else:
            # must then be excluded by an assumption: the native run decides
            out.append(([env[nm] for nm, w in longest], 'skip', 'skip'))
    return out, uncovered


def run_job(job):
    t0 = time.time()
    q0, s0 = lin.STATS['queries'], lin.STATS['solver_s']
    mod = MODS[job['mod']]
    kw = dict(job.get('opts', {}))
    models, rand = kw.pop('models', 2), kw.pop('rand', 2)
    X = sx.Exec(mod, job.get('params', ()), backend=job.get('backend', 'int'), keep=True,
                deadline=min(t0 + job['limit'], job['deadline']), **kw)
    err = None
    try:
        X.run(job['fn'])
    except sx.EngineError as e:
        err = 'EngineError: %s' % e
    except lin.Unsupported as e:
        err = 'Unsupported: %s' % e
    except MemoryError:
        err = 'out of memory'
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        err = traceback.format_exc().strip().split('\n')
        err = 'internal: ' + ' | '.join(err[-3:])
    R = X.R
    samples = []
    try:
        X.deadline = time.time() + 20
        samples, _ = path_samples(X, R, random.Random('%s/%s/%s/%d' % (job['fn'], job.get('params'), SEED, 0)), models, rand)
    except Exception as e:
        if err is None:
            err = 'sampling: %r' % e
    return dict(job=job, err=err, paths=R.paths, steps=R.steps, forks=R.forks, obligations=R.obligations, proved=R.proved,
                violations=R.violations, unknown=R.unknown, funcs=sorted(R.funcs), reach=sorted(R.reach), samples=samples,
                truncated=R.truncated, widths=R.widths, queries=lin.STATS['queries'] - q0, solver_s=lin.STATS['solver_s'] - s0, wall=time.time() - t0,
                exts=sorted(X.exts))


def case_line(fn, params, inputs):
    return '%s %d %s %d %s' % (fn, len(params), ' '.join(str(p) for p in params), len(inputs), ' '.join(hex(v) for v in inputs))


ENVX = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1',
            TSAN_OPTIONS='halt_on_error=1', LC_ALL='C')


def run_native(exe, lines, tmo, wrap=(), threads=1, cwd=None):
    """Run cases; a crash or hang of one case does not lose the others."""
    res = []
    i = 0
    while i < len(lines):
        f = os.path.join(cwd, 'cases.%d' % os.getpid())
        with open(f, 'w') as h:
            h.write('\n'.join(lines[i:]) + '\n')
        hang = False
        try:
            p = subprocess.run(list(wrap) + [exe, f] + ([str(threads)] if threads > 1 else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo,
                               env=ENVX, cwd=cwd)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc, hang = e.stdout or b'', e.stderr or b'', 0, True
        cs = build.parse_native(out.decode(errors='replace'))
        if not cs:
            res += [{'status': 'crash', 'outs': [], 'msg': 'no output rc=%s %s' % (rc, err[-300:].decode(errors='replace'))}]
            i += 1
            continue
        last = cs[-1]
        if last['status'] == 'crash':
            last['status'] = 'hang' if hang else 'crash'
        if last['status'] in ('crash', 'hang') or rc:
            last['err'] = err.decode(errors='replace')[-3000:]
            if rc and last['status'] not in ('crash', 'hang'):
                last['san'] = True
        if threads > 1 and b'data race' in err:
            last['status'] = 'race'
        if wrap and b'uninitialised' in err:
            last['uninit'] = True
            last['err'] = err.decode(errors='replace')[-3000:]
        res += cs
        i += len(cs)
    return res


def worker(conn, jobs):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # die with the parent
    except Exception:
        pass
    try:
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send((i, run_job(jobs[i])))
    except (EOFError, OSError, KeyboardInterrupt):
        pass
    os._exit(0)


def run_pool(jobs, nproc, per_child):
    """Yield results as they finish.  Workers share nothing, are replaced after per_child
    jobs, and are killed at the end; a worker that dies costs only its job."""
    todo = list(range(len(jobs)))[::-1]
    live = {}

    def spawn():
        a, b = mp.Pipe()
        p = mp.Process(target=worker, args=(b, jobs), daemon=True)
        p.start()
        b.close()
        live[a] = [p, 0, None]
        give(a)

    def give(a):
        if todo and live[a][1] < per_child:
            i = todo.pop()
            live[a][1] += 1
            live[a][2] = i
            a.send(i)
        else:
            retire(a, False)
            if todo:
                spawn()

    def retire(a, kill):
        p = live.pop(a)[0]
        if kill:
            p.kill()
        else:
            try:
                a.send(None)
            except OSError:
                pass
        a.close()
        dead.append(p)

    dead = []
    try:
        for _ in range(nproc):
            if todo:
                spawn()
        while live:
            for a in mpc.wait(list(live), timeout=5):
                if a not in live:
                    continue
                i = live[a][2]
                try:
                    i, r = a.recv()
                except (EOFError, OSError, pickle.UnpicklingError):
                    retire(a, True)
                    if todo:
                        spawn()
                    yield dead_result(jobs[i], 'worker died (out of memory?)')
                    continue
                give(a)
                yield r
            # a worker stuck in the solver far beyond its time
            for a in list(live):
                j = jobs[live[a][2]]
                if time.time() > j['deadline'] + 60:
                    i = live[a][2]
                    retire(a, True)
                    yield dead_result(jobs[i], 'time limit')
    finally:
        for a in list(live):
            retire(a, True)
        for p in dead:
            p.join(0.2)
            if p.is_alive():
                p.kill()


def dead_result(job, why):
    return dict(job=job, err=why, paths=0, steps=0, forks=0, obligations=0, proved=0, violations=[], unknown=[], funcs=[], reach=[], samples=[],
                truncated=True, widths=[], queries=0, solver_s=0.0, wall=0.0, exts=[])


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.P = props.PROPS[pid]
        self.t0 = time.time()
        self.searched = 0
        self.B = build.Build()
        self.budget = float(os.environ.get('VERIF_BUDGET', 0)) or (600 if tier == 'quick' else 6 * 3600)

    def nat(self, mod, kind):
        hs, defs = self.P['mods'][mod]
        t = '%s-%s' % (kind, mod)
        if kind == 'nat':
            return self.B.native(hs, defs, t, 'g++', ('-O1', '-g'))
        if kind == 'o0':
            return self.B.native(hs, defs, t, 'g++', ('-O0', '-g'))
        if kind == 'asan':
            return self.B.native(hs, defs, t, 'clang++', ('-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                                                        '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'))
        if kind == 'tsan':
            return self.B.native(hs, defs, t, 'clang++', ('-O1', '-g', '-fsanitize=thread'))

    def confirm(self, mod, fn, v):
        """Replay a counterexample on the real code; returns a description or None."""
        line = [case_line(fn, v['params'], v['inputs'])]
        d = self.B.dir
        k = v['kind']
        mem = self.P.get('memory')
        bad = ('fail', 'exc', 'crash', 'hang')
        if mem and v['what'].startswith('storage:'):
            r = run_native(self.nat(mod, 'o0'), line, 20, cwd=d)[0]
            if r['status'] == 'fail' and r['msg'].startswith('storage:'):
                return '%s: %s' % (r['status'], r['msg'])
        if mem:
            # the memory property: the real code must be caught misbehaving by a sanitizer or valgrind
            r = run_native(self.nat(mod, 'asan'), line, 60, cwd=d)[0]
            if r['status'] in ('crash', 'hang') or r.get('san'):
                return 'sanitizer: %s %s' % (r['msg'], first_error(r.get('err', '')))
            r = run_native(self.nat(mod, 'o0'), line, 120, wrap=('valgrind', '-q', '--error-exitcode=9'), cwd=d)[0]
            if r.get('uninit') or r.get('san') or r['status'] == 'crash':
                return 'valgrind: ' + first_error(r.get('err', ''))
            return None
        if k != 'gwrite':
            for b in ('nat', 'o0'):
                r = run_native(self.nat(mod, b), line, 20, cwd=d)[0]
                if r['status'] in bad:
                    return '%s: %s' % (r['status'], r['msg'] or v['what'])
        if k == 'gwrite':
            r = run_native(self.nat(mod, 'tsan'), line, 120, threads=4, cwd=d)[0]
            if r['status'] == 'race' or r.get('san'):
                return 'thread sanitizer: data race'
        return None

    def concretise(self, r):
        """The solver left an assertion of this job open: look for a concrete failing input
        on the real code.  Finding none decides nothing (the job stays inconclusive)."""
        if self.P.get('memory') or not r['widths'] or self.searched > 240:
            return None
        t0 = time.time()
        j = r['job']
        f = os.path.join(self.B.dir, 'search')
        with open(f, 'w') as h:
            h.write('%s %d %s %d %s\n' % (j['fn'], len(j['params']), ' '.join(map(str, j['params'])), len(r['widths']), ' '.join(map(str, r['widths']))))
        try:
            p = subprocess.run([self.nat(j['mod'], 'nat'), f, 'search', '100000', '3'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=ENVX, cwd=self.B.dir)
            out = p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            out = ''
        self.searched += time.time() - t0
        for L in out.split('\n'):
            if L.startswith('hit'):
                v = dict(kind='assert', what=(r['unknown'] or [{'what': r['err'] or ''}])[0]['what'], where='concrete search in a job the solver left open',
                         inputs=[int(x, 16) for x in L.split()[1:]], params=list(j['params']))
                how = self.confirm(j['mod'], j['fn'], v)
                if how:
                    return dict(v, fn=j['fn'], mod=j['mod'], confirmed=how)

    def run(self):
        P = self.P
        jobs = P['jobs'](self.tier)
        mods = sorted({j['mod'] for j in jobs})
        for m in mods:
            hs, defs = P['mods'][m]
            MODS[m] = ll.Module(open(self.B.ir(hs, defs, 'ir-' + m)).read())
        tb = time.time() - self.t0
        deadline = self.t0 + self.budget
        for j in jobs:
            j.setdefault('limit', 240 if self.tier == 'quick' else 900)
            j['deadline'] = deadline
        res = []
        nproc = min(int(os.environ.get('VERIF_JOBS', '8')), len(jobs))
        confirmed, refuted, first = [], [], 0
        seen = set()
        pool = run_pool(jobs, nproc, P.get('tasks', 1))
        for r in pool:
            res.append(r)
            if os.environ.get('VERIF_V'):
                print('  job %s%s paths=%d obl=%d/%d viol=%d unk=%d %.1fs %s' % (r['job']['fn'], r['job'].get('params', ''), r['paths'], r['proved'],
                      r['obligations'], len(r['violations']), len(r['unknown']), r['wall'], r['err'] or ''), flush=True)
            for v in r['violations']:
                if len(confirmed) >= 3:
                    break
                if P.get('memory') and v['kind'] not in ('ub', 'uninit') and not v['what'].startswith('storage:'):
                    continue
                key = (v['kind'], v['what'], v['where'])
                if key in seen and len(seen) > 20:
                    continue
                seen.add(key)
                how = self.confirm(r['job']['mod'], r['job']['fn'], v)
                v = dict(v, fn=r['job']['fn'], mod=r['job']['mod'], confirmed=how)
                (confirmed if how else refuted).append(v)
            if (r['unknown'] or r['err'] or refuted) and not confirmed:
                v = self.concretise(r)
                if v:
                    confirmed.append(v)
            if confirmed and not first:
                first = time.time()
            if len(confirmed) >= 3 or first and time.time() - first > 15:
                pool.close()
                break
        self.res, self.njobs = res, len(jobs)
        # cross-check sampled paths natively
        val, mism = 0, []
        shown = []
        for m in mods:
            lines, exp = [], []
            for r in res:
                if r['job']['mod'] != m or P.get('nosample'):
                    continue
                for inp, outs, why in r['samples']:
                    lines.append(case_line(r['job']['fn'], r['job'].get('params', ()), inp))
                    exp.append((r, inp, outs, why))
            if not lines:
                continue
            got = run_native(self.nat(m, 'nat'), lines, 120, cwd=self.B.dir)
            for (r, inp, outs, why), g in zip(exp, got):
                if P.get('memory') and g['status'] in ('fail', 'exc', 'hang'):
                    continue
                if g['status'] in ('fail', 'exc', 'crash', 'hang') and why == 'done' and not confirmed:
                    v = dict(kind='assert', what=g['msg'] or g['status'], where='native run of a sampled path', inputs=inp, params=list(r['job'].get('params', ())),
                             fn=r['job']['fn'], mod=m, confirmed='%s: %s' % (g['status'], g['msg']))
                    if g['status'] in ('fail', 'exc') or self.confirm(m, r['job']['fn'], v):
                        confirmed.append(v)
                    continue
                if g['status'] == 'skip':
                    if outs != 'skip':
                        mism.append((r['job']['fn'], inp, 'assumption'))
                    continue
                if outs == 'skip':
                    if not r['err'] and not r['violations'] and not r['truncated']:
                        mism.append((r['job']['fn'], inp, 'not covered by any path'))
                    continue
                if g['status'] == 'ok' and why == 'done':
                    ok = len(outs) == len(g['outs']) and all(a is None or a == b for a, b in zip(outs, g['outs']))
                    if not ok and not r['violations']:
                        mism.append((r['job']['fn'], inp, 'executor %s native %s' % (outs, g['outs'])))
                    else:
                        val += 1
                        if len(shown) < 4 and inp:
                            shown.append({'harness': r['job']['fn'], 'params': list(r['job'].get('params', ())), 'inputs': [hex(x) for x in inp],
                                          'outputs': show(g['outs'])})
        return self.report(confirmed, refuted, val, mism, shown, tb)

    def report(self, confirmed, refuted, val, mism, shown, tb):
        P, pid, res = self.P, self.pid, self.res
        unk = [dict(u, job='%s%s' % (r['job']['fn'], tuple(r['job'].get('params', ())))) for r in res for u in r['unknown']]
        errs = ['%s%s: %s' % (r['job']['fn'], tuple(r['job'].get('params', ())), r['err']) for r in res if r['err']]
        vac = []
        for r in res:
            need = r['job'].get('reach', [1])
            if not r['err'] and not r['violations'] and not r['truncated'] and not set(need) <= set(r['reach']):
                vac.append('%s%s' % (r['job']['fn'], tuple(r['job'].get('params', ()))))
        known = load_known()
        new, old = [], []
        for v in confirmed:
            k = next((x for x in known if x['property'] == pid and x['harness'] == v['fn'] and x['what'] in v['what']), None)
            (old if k else new).append(v)
        rd = os.path.join(HERE, 'evidence', 'replay')
        lines = []
        for i, v in enumerate(new[:3]):
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, '%s-%d.json' % (pid, i))
            json.dump(dict(property=pid, mod=v['mod'], harness=v['fn'], params=v['params'], inputs=[hex(x) for x in v['inputs']], kind=v['kind'], what=v['what'],
                           where=v['where'], native=v['confirmed']), open(f, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, f))
            print('%s: %s params=%s inputs=%s\n  at %s\n  native: %s' % (v['kind'], v['what'], v['params'], [hex(x) for x in v['inputs']][:40], v['where'], v['confirmed']))
        for v in old:
            print('KNOWN-FINDING: property=%s %s' % (pid, v['what']))
        funcs = sorted({demangle_cached(f) for r in res for f in r['funcs']})
        libf = [f for f in funcs if 'lexi::' in f or f in P.get('cfuncs', ())]
        ev = {
            'property': pid, 'tier': self.tier, 'seed': SEED, 'level': P['level'], 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
            'assumptions': P['assume'] + props.COMMON_ASSUME,
            'coverage': {
                'states': sum(r['paths'] + r['forks'] for r in res),
                'transitions': sum(r['steps'] for r in res),
                'traces_validated_against_impl': val,
                'samples': shown,
                'bounds': P['bounds'][self.tier] if isinstance(P['bounds'], dict) else P['bounds'],
                'jobs': len(res), 'jobs_planned': self.njobs, 'paths': sum(r['paths'] for r in res),
                'assertions_checked': sum(r['obligations'] for r in res), 'assertions_discharged': sum(r['proved'] for r in res),
                'solver_queries': sum(r['queries'] for r in res), 'solver_seconds': round(sum(r['solver_s'] for r in res), 2),
                'functions_encoded': libf, 'functions_encoded_total': len(funcs),
                'inconclusive': [u['what'] + ' in ' + u['job'] for u in unk][:40] + errs[:40],
                'unreproduced_counterexamples': [dict(what=v['what'], where=v['where'], fn=v['fn'], params=v['params'], inputs=[hex(x) for x in v['inputs']]) for v in refuted][:10],
                'executor_native_mismatches': [str(m)[:300] for m in mism][:10],
                'harnesses_not_reaching_their_end': vac[:20],
                'build_seconds': round(tb, 2), 'ir': 'clang 18 -O1 -disable-llvm-passes of every src/**/*.cpp, linked with harness and C-library models; opt inline,sroa,simplifycfg,early-cse',
            },
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        c = ev['coverage']
        print('%s %s: %d jobs, %d paths, %d/%d assertions discharged, %d queries, %.1fs solver, %d traces validated, %.1fs' % (
            pid, self.tier, c['jobs'], c['paths'], c['assertions_discharged'], c['assertions_checked'], c['solver_queries'], c['solver_seconds'], val, ev['wall_s']))
        for x in c['inconclusive'][:10]:
            print('INCONCLUSIVE', x[:300])
        for x in c['unreproduced_counterexamples'][:5]:
            print('UNREPRODUCED', x)
        for x in mism[:5]:
            print('MISMATCH', str(x)[:300])
        for x in vac[:5]:
            print('VACUOUS', x)
        for l in lines:
            print(l)
        if new:
            return 1
        if mism and not refuted:
            return 2
        good = sum(1 for r in res if not r['err'] and not r['unknown'])
        if good == 0 or vac:
            return 2
        return 0


def first_error(s):
    for L in s.split('\n'):
        if 'ERROR' in L or 'runtime error' in L or 'ninitialised' in L or 'Invalid' in L:
            return L.strip()[:200]
    return s.strip().split('\n')[0][:200]


def show(outs):
    r = []
    for o in outs:
        if len(o) == 1 and o[0] > 255:
            r.append(hex(o[0]))
        else:
            r.append(''.join(chr(b) if 32 <= b < 127 else '\\x%02x' % b for b in o))
    return r


def load_known():
    f = os.path.join(HERE, 'known_findings.json')
    return [x for x in json.load(open(f)) if x.get('status') == 'known'] if os.path.exists(f) else []


_dm = {}


def demangle_cached(f):
    return _dm.get(f, f)


def demangle_all(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    for a, b in zip(names, p.stdout.decode().split('\n')):
        _dm[a] = b


def replay(f):
    d = json.load(open(f))
    C = Check(d['property'], 'quick')
    how = C.confirm(d['mod'], d['harness'], dict(params=d['params'], inputs=[int(x, 16) for x in d['inputs']], kind=d['kind'], what=d['what']))
    print('reproduced: %s' % how if how else 'not reproduced')
    return 1 if how else 0


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    C = Check(a[0], 'thorough' if tier == 'thorough' else 'quick')
    try:
        old = Check.report

        def rep(self, *x):
            demangle_all(sorted({f for r in self.res for f in r['funcs']}))
            return old(self, *x)
        Check.report = rep
        return C.run()
    except build.BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 2
    finally:
        C.B.close()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
