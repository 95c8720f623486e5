#!/usr/bin/env python3
"""Driver of the symbolic checks: compiles /repo's current sources to LLVM IR, runs amisym on the harnesses of one
property, replays every counterexample against the natively compiled library and writes the evidence file."""
import sys, os, json, subprocess, time, tempfile, shutil, threading, resource, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import checks as spec
REPO = os.environ.get('AMISYM_REPO', '/repo')
AMISYM = V + '/build/amisym'
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
IRF = ('-std=gnu++14 -O1 -Xclang -disable-llvm-passes -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 '
       '-DNDEBUG -gline-tables-only -ffp-contract=off -emit-llvm').split()
MEM = 7 << 30


def sh(cmd, timeout=None, mem=None, **kw):
    def lim():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=lim, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return -9, o, e


def tagOf(defs): return ''.join(x for x in defs if x.startswith('-D')).replace('-D', '_').replace('=', '_')


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='amisym-%s-' % pid)
        self.pool = ThreadPoolExecutor(8)
        self.lock = threading.Lock()
        self.futs = {}
        self.deadline = self.t0 + (spec.QUICK_DEADLINE if tier == 'quick' else spec.THOROUGH_DEADLINE)

    def once(self, key, fn):
        with self.lock:
            if key not in self.futs: self.futs[key] = self.pool.submit(fn)
            return self.futs[key]

    # ---- builds
    def sources(self): return sorted(glob.glob(REPO + '/src/*.cpp'))
    def inc(self): return ['-I' + REPO + '/src', '-I' + V + '/harness']

    def cc(self, src, out, flags):
        rc, o, e = sh([CLANG] + flags + self.inc() + ['-c', src, '-o', out], timeout=300)
        if rc: raise RuntimeError('compilation of %s failed:\n%s' % (src, e[-3000:]))
        return out

    # '+MP' in defs: the multiprecision build is compiled as well (class renamed, only its mp_* functions are visible)
    def variants(self, defs):
        d = tuple(x for x in defs if x != '+MP')
        if '+MP' not in defs: return [('', d)]
        gi = os.path.dirname(sh(['gcc', '-print-file-name=include/quadmath.h'])[1].strip())
        return [('', d), ('@', d + ('-DBOOST_MP', '-DAmiBase=AmiBaseMP', '-idirafter', gi))]

    def rt_bc(self): return self.once('rt', lambda: self.cc(V + '/engine/rt.cpp', self.dir + '/rt.bc', IRF))

    def all_bc(self, h, defs):
        r = [self.rt_bc().result()]
        for at, d in self.variants(defs): r += [at + f.result() for f in self.lib_bc(d)] + [at + self.har_bc(h, d).result()]
        return r

    def lib_bc(self, defs):
        tag = 'lib' + tagOf(defs)
        fs = [self.once((tag, s), lambda s=s: self.cc(s, '%s/%s_%s.bc' % (self.dir, tag, os.path.basename(s)), IRF + list(defs))) for s in self.sources()]
        return fs

    def har_bc(self, h, defs):
        src = '%s/harness/%s.cpp' % (V, h); tag = 'h' + tagOf(defs)
        return self.once((tag, h), lambda: self.cc(src, '%s/%s_%s.bc' % (self.dir, tag, h), IRF + list(defs)))

    def native_objs(self, kind, defs):
        if '+MP' in defs:
            (a, d), (b, m) = self.variants(defs)
            return self.native_objs(kind, d)
        fl = {'plain': ['-O1', '-g'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], 'vg': ['-O0', '-g']}[kind]
        fl = fl + ['-std=gnu++14', '-DNDEBUG', '-ffp-contract=off'] + list(defs); tag = kind + tagOf(defs)
        srcs = self.sources() + [V + '/harness/replay.cpp']
        return tag, fl, [self.once((tag, s), lambda s=s: self.cc(s, '%s/%s_%s.o' % (self.dir, tag, os.path.basename(s)), fl)) for s in srcs]

    # ---- jobs.  Build steps are submitted before anything waits on them, so the pool cannot dead-lock.
    def prepare(self, jobs):
        self.rt_bc()
        for d in sorted({j.defs for j in jobs}):
            for at, dd in self.variants(d): self.lib_bc(dd)
        for j in jobs:
            for at, dd in self.variants(j.defs): self.har_bc(j.h, dd)
        for f in list(self.futs.values()): f.result()
        prep = {}
        for j in jobs: prep.setdefault(j.build_key(), j)
        def mk(j, opt):
            out = '%s/prep_%d.bc' % (self.dir, abs(hash((j.build_key(), opt))))
            cmd = [AMISYM] + self.all_bc(j.h, j.defs) + ['--opt', str(opt), '--prep', out] + j.ufargs()
            rc, o, e = sh(cmd, timeout=300, mem=MEM)
            if rc: raise RuntimeError('preparing %s failed: %s' % (j.h, (e or o)[-2000:]))
            return out
        self.mkprep = mk
        for k, j in prep.items(): self.once(('prep', k), lambda j=j: mk(j, j.opt))
        for k in prep: self.futs[('prep', k)].result()

    def run_job(self, j):
        left = self.deadline - time.time()
        if left < 5: return dict(job=j, skipped=True)
        lim = min(j.time if self.tier == 'quick' else max(j.time, j.ttime), left)
        def go(bc, extra=[]):
            out = '%s/job_%d_%d.json' % (self.dir, id(j), time.monotonic_ns())
            cmd = [AMISYM, bc, '--noopt', '--out', out, '--seed', str(self.seed), '--time', str(lim)] + j.ufargs() + list(j.flags) + extra
            for k, v in j.params.items(): cmd += ['--param', '%s=%d' % (k, v)]
            rc, o, e = sh(cmd, timeout=lim + 60, mem=MEM)
            if rc or not os.path.exists(out): return None, 'rc=%d %s' % (rc, (e or o)[-500:])
            return json.load(open(out)), None
        d, err = go(self.futs[('prep', j.build_key())].result())
        # an instruction the executor does not encode may disappear at another optimisation level
        if d and d['inconclusive'] and j.opt > 0 and any('unsupported' in x for x in d['inconclusive']) and self.deadline - time.time() > 60:
            for opt in (1, 0):
                if opt >= j.opt: continue
                try: d2, e2 = go(self.mkprep(j, opt))
                except RuntimeError: continue
                if d2 and len(d2['inconclusive']) < len(d['inconclusive']): d = d2
                if not d['inconclusive']: break
        return dict(job=j, data=d, err=err)

    # ---- native runs
    def native(self, j, kind):
        tag, fl, objs = self.native_objs(kind, j.defs)
        objs = [f.result() for f in objs]
        if '+MP' in j.defs: tag += '_mp'
        exe = '%s/%s_%s.exe' % (self.dir, tag, j.h)
        with self.lock:
            key = ('exelock', exe)
            if key not in self.futs: self.futs[key] = threading.Lock()
            lk = self.futs[key]
        with lk:
            if not os.path.exists(exe):
                if '+MP' in j.defs:
                    so = '%s/lib%s_%s.so' % (self.dir, tag, j.h)
                    rc, o, e = sh([CLANG] + fl + list(self.variants(j.defs)[1][1]) + ['-fPIC', '-shared', '-fvisibility=hidden', '-Wl,-Bsymbolic'] + self.inc() + self.sources() + ['%s/harness/%s.cpp' % (V, j.h), '-o', so, '-lquadmath', '-L' + os.path.dirname(sh(['gcc', '-print-file-name=libquadmath.so'])[1].strip())], timeout=300)
                    if rc: raise RuntimeError('native build of %s failed: %s' % (j.h, e[-2000:]))
                    objs = objs + [so, '-Wl,-rpath,' + self.dir]
                rc, o, e = sh([CLANG] + fl + self.inc() + ['%s/harness/%s.cpp' % (V, j.h)] + objs + ['-o', exe], timeout=300)
                if rc: raise RuntimeError('native build of %s failed: %s' % (j.h, e[-2000:]))
        return exe

    def native_run(self, j, kind, model, path):
        exe = self.native(j, kind)
        with open(path, 'w') as f:
            for k, v in j.params.items(): f.write('p %s %d\n' % (k, v))
            for k, v in sorted(model.items()): f.write('v %s %s\n' % (k, v))
        cmd = [exe, path]
        if kind == 'vg': cmd = ['valgrind', '-q', '--error-exitcode=99', '--main-stacksize=8388608'] + cmd
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=98', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
        return sh(cmd, timeout=120, env=env, cwd=self.dir)

    def confirm(self, j, v):
        """replays the models of one violation natively; returns (ok, model, output)"""
        for m in v['models']:
            p = '%s/replay_%d.txt' % (self.dir, time.monotonic_ns())
            kinds = ['plain'] if v['kind'] == 'check' else ['asan', 'vg']
            for kind in kinds:
                rc, o, e = self.native_run(j, kind, m, p)
                if rc == 11: break
                if v['kind'] == 'check':
                    if rc == 10 and ('CHECKFAIL ' + v['msg'] + '\n') in o: return True, m, o
                    if rc < 0 or rc in (134, 136, 139): return True, m, o + e[-1500:] + '\nexit code %d' % rc
                elif rc < 0 or rc in (98, 99, 134, 136, 139) or (rc not in (0, 10, 11)):
                    return True, m, o + e[-2500:] + '\nexit code %d (%s build)' % (rc, kind)
        if v['kind'] == 'check' and 'indeterminate' in v['detail']:
            for m in v['models'][:2]:
                rc, o, e = self.native_run(j, 'vg', m, '%s/replay_%d.txt' % (self.dir, time.monotonic_ns()))
                if rc == 99: return True, m, o + e[-2000:]
        return False, None, ''

    def main(self):
        P = spec.PROPS[self.pid]
        jobs = [j for j in P['jobs'] if self.tier == 'thorough' or j.tier == 'quick']
        if not os.path.exists(AMISYM): raise RuntimeError('build/amisym is missing: run the setup command')
        self.prepare(jobs)
        kf = [k for k in spec.known_findings() if k.get('property') == self.pid and not k.get('fixed')]
        nat_needed = True
        if nat_needed:
            for d in sorted({j.defs for j in jobs}): self.native_objs('plain', d)
        res = list(self.pool.map(self.run_job, sorted(jobs, key=lambda j: -j.weight)))
        viol, known, unrep, inconc, skipped = [], [], [], [], []
        errs = []
        tot = dict(paths=0, pruned=0, instructions=0, branches=0, forks=0, merges=0, concretisations=0, error_paths=0)
        sol = dict(queries=0, sat=0, unsat=0, unknown=0, seconds=0.0)
        chk = {}; reach = {}; funcs = set(); lines = {}; samples = []; bounds = []; traces = 0; tmis = []
        tr = []
        for r in res:
            j = r['job']
            if r.get('skipped'): skipped.append(j.label()); continue
            d = r['data']
            if d is None: skipped.append(j.label() + ' (engine gave up: %s)' % r['err']); continue
            for k in tot: tot[k] += d[k]
            for k in sol: sol[k] += d['solver'][k]
            if not d['complete']: skipped.append(j.label() + ' (time limit)')
            for k, c in d['checks'].items():
                q = chk.setdefault(k, dict(reached=0, by_normal_form=0, by_solver=0, violated=0, inconclusive=0))
                for x in q: q[x] += c[x]
            for k, n in d['reach'].items(): reach[k] = reach.get(k, 0) + n
            funcs |= set(d['functions'])
            for f, l in d['lines'].items(): lines.setdefault(f, set()).update(l)
            inconc += ['%s: %s' % (j.label(), x) for x in d['inconclusive']]
            bounds.append(dict(job=j.label(), paths=d['paths'], ints=['%s in [%d,%d]' % tuple(x) for x in d['symbolic_ints'][:40]], reals=len(d['symbolic_reals']), wall_s=round(d['wall_s'], 2)))
            for v in d['violations']: tr.append(('v', j, v))
            for t in d['traces'][:spec.TRACES_PER_JOB]: tr.append(('t', j, t))
        def nat(x):
            kind, j, v = x
            try:
                if kind == 'v': return x, self.confirm(j, v)
                p = '%s/trace_%d.txt' % (self.dir, time.monotonic_ns())
                rc, o, e = self.native_run(j, 'plain', v['model'], p)
                got = [l.split(' ', 2)[1:] for l in o.splitlines() if l.startswith('OBS ')]
                bad = None
                if rc == 11: return x, ('skip', None)
                if rc not in (0, 10) or len(got) != len(v['obs']): bad = 'exit %d, %d observations instead of %d' % (rc, len(got), len(v['obs']))
                else:
                    for (n1, x1), ob in zip(got, v['obs']):
                        a, b = float(x1), float(ob[1]); sc = float(ob[2]) if len(ob) > 2 else max(abs(a), abs(b))
                        if not (abs(a - b) <= 1e-9 + 1e-7 * sc or a == b or (a != a and b != b)): bad = '%s: native %r, symbolic %r' % (n1, a, b); break
                return x, ('bad', bad) if bad else ('ok', None)
            except RuntimeError as ex:
                return x, ('err', str(ex))
        # a thread pool of its own: native() waits on futures of self.pool
        with ThreadPoolExecutor(6) as np_: natres = list(np_.map(nat, tr))
        rdir = V + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
        for old in glob.glob('%s/%s-*.txt' % (rdir, self.pid)): os.unlink(old)
        for (kind, j, v), r in natres:
            if kind == 't':
                if r[0] == 'ok': traces += 1; 
                elif r[0] == 'bad': tmis.append('%s: %s model %s' % (j.label(), r[1], json.dumps(v['model'])))
                elif r[0] == 'err': errs.append(r[1])
                if len(samples) < 4 and r[0] == 'ok': samples.append(dict(job=j.label(), model=v['model'], observed=v['obs'][:6]))
                continue
            if r[0] == 'err': errs.append(r[1]); continue
            ok, m, out = r
            if not ok: unrep.append(dict(job=j.label(), msg=v['msg'], where=v['where'], models=v['models'][:2], detail=v['detail'][:300])); continue
            hit = None
            for k in kf:
                if k['harness'] == j.h and k['check'] == v['msg'] and all(j.params.get(a) == b for a, b in k.get('params', {}).items()) and spec.finding_matches(k, m): hit = k; break
            if hit: known.append((hit, j, v)); continue
            path = '%s/%s-%d.txt' % (rdir, self.pid, len(viol) + 1)
            with open(path, 'w') as f:
                f.write('# property %s, harness %s %s\n# violated: %s\n# at %s\n# %s\n# native run:\n' % (self.pid, j.h, j.params, v['msg'], v['where'], v['detail'][:500].replace('\n', ' ')))
                for l in out.splitlines()[:40]: f.write('#   ' + l + '\n')
                f.write('# replay: build harness/%s.cpp with harness/replay.cpp and the library sources, run it on this file\n' % j.h)
                for k, x in j.params.items(): f.write('p %s %d\n' % (k, x))
                for k, x in sorted(m.items()): f.write('v %s %s\n' % (k, x))
            viol.append((path, j, v, m, out))
        need = P.get('reach', [])
        vac = [t for t in need if not reach.get(t) and not chk.get(t, {}).get('reached')] if not viol and not skipped else []
        cov = dict(states=tot['paths'], transitions=tot['branches'], traces_validated_against_impl=traces, samples=samples or [dict(note='no observation points in these harnesses')],
                   instructions=tot['instructions'], forks=tot['forks'], merges=tot['merges'], pruned_paths=tot['pruned'], concretisations=tot['concretisations'],
                   jobs=len(jobs), jobs_incomplete=skipped, bounds=bounds, property_bounds=P.get('bounds', ''), outside=P.get('outside', ''),
                   solver_queries=sol['queries'], solver_sat=sol['sat'], solver_unsat=sol['unsat'], solver_unknown=sol['unknown'], solver_seconds=round(sol['seconds'], 2),
                   checks=chk, functions_encoded=sorted(funcs), lines_encoded={k: len(x) for k, x in lines.items()},
                   inconclusive=inconc, unreplayed_counterexamples=unrep, trace_mismatches=tmis, errors=errs, exhaustive=not skipped and not inconc)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov, assumptions=spec.ASSUMPTIONS + P.get('assumptions', []), wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        json.dump(ev, open('%s/evidence/%s.json' % (V, self.pid), 'w'), indent=1)
        ck = sum(c['reached'] for c in chk.values())
        print('%s %s: %d jobs, %d paths, %d checks (%d by simplification, %d by solver), %d queries %.1fs solver, %d traces validated, %.1fs' % (self.pid, self.tier, len(jobs), tot['paths'], ck, sum(c['by_normal_form'] for c in chk.values()), sum(c['by_solver'] for c in chk.values()), sol['queries'], sol['seconds'], traces, time.time() - self.t0))
        for k, j, v in known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for x in inconc[:10]: print('inconclusive: ' + x[:300])
        for x in unrep[:10]: print('not reproduced natively: %s %s' % (x['job'], x['msg']))
        for x in tmis[:10]: print('trace mismatch: ' + x[:400])
        for x in skipped[:10]: print('incomplete: ' + x)
        for x in vac: print('not reached: ' + x)
        seen = set()
        for path, j, v, m, out in viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            if v['msg'] not in seen: print('  %s [%s] at %s' % (v['msg'], j.label(), v['where'][:160])); seen.add(v['msg'])
        if viol: return 1
        for x in errs: print('error: ' + x[:600])
        if errs or ((tot['paths'] == 0 or not ck) and not known) or tmis or vac: return 2
        return 0


if __name__ == '__main__':
    pid = sys.argv[1]; tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in sys.argv: tier = 'quick'
    r = Run(pid, tier)
    try: rc = r.main()
    except RuntimeError as ex: print('error: %s' % ex); rc = 2
    finally:
        if os.environ.get('AMISYM_KEEP'): print('kept ' + r.dir)
        else: shutil.rmtree(r.dir, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
