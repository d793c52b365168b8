#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real headers (see DESIGN.md).

usage: check.py <PROPERTY> [--tier quick|thorough] [--unit NAME] [--entry NAME] [--keep] [--jobs N]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (an error of the check)
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks as C

REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
INC = ['-I' + REPO + '/include', '-isystem', '/opt/vp/compat', '-I' + HERE + '/harness']
BC_FLAGS = ['-std=c++17', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing', '-w', '-DBOOST_ENABLE_ASSERT_HANDLER', '-DVP_SYMX=1']
NAT_FLAGS = ['-std=c++17', '-w', '-DBOOST_ENABLE_ASSERT_HANDLER', '-fno-strict-aliasing']


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


class Unit:
    def __init__(self, check, u, tier, tmp, jobs, entries, seed, deadline):
        self.u, self.tier, self.tmp, self.jobs, self.entries, self.seed, self.deadline = u, tier, tmp, jobs, entries, seed, deadline
        self.name = u['name']
        self.src = os.path.join(HERE, 'harness', u['src'])
        self.defs = list(u.get('defs', [])) + ['-DVP_THOROUGH=%d' % (tier == 'thorough')]
        self.res = None
        self.error = None
        self.viol = []
        self.validated = 0
        self.natives = {}

    def p(self, s):
        return os.path.join(self.tmp, self.name + s)

    def build_native(self, kind):
        if kind in self.natives:
            return self.natives[kind]
        comp, extra = {
            'plain': (['g++', '-O0'], []),
            'asan': ([LLVM + '/clang++', '-O0', '-g1'], ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr']),
            'msan': ([LLVM + '/clang++', '-O1', '-g1'], ['-fsanitize=memory', '-fno-omit-frame-pointer']),
            'pat': ([LLVM + '/clang++', '-O0', '-ftrivial-auto-var-init=pattern', '-DVP_FILL=0xAA'], []),
            'zero': ([LLVM + '/clang++', '-O0', '-ftrivial-auto-var-init=zero', '-enable-trivial-auto-var-init-zero-knowing-it-will-be-removed-from-clang', '-DVP_FILL=0'], []),
            'o2': (['g++', '-O2'], []),
        }[kind]
        out = self.p('.' + kind)
        cmd = comp + NAT_FLAGS + extra + self.defs + INC + [self.src, os.path.join(HERE, 'harness/vp_native.cpp'), '-rdynamic', '-ldl', '-o', out]
        r = sh(cmd)
        if r.returncode:
            if kind == 'zero':
                self.natives[kind] = None
                return None
            raise RuntimeError('native build failed (%s): %s' % (kind, r.stdout[-2000:]))
        self.natives[kind] = out
        return out

    def run_native(self, exe, entry, inputs, timeout=20):
        fn = tempfile.mktemp(prefix='in', dir=self.tmp)
        with open(fn, 'w') as f:
            for k, w, v in inputs:
                f.write(v + '\n')
        try:
            r = sh([exe, entry, fn], timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1'))
            return r.returncode, r.stdout, fn
        except subprocess.TimeoutExpired:
            return -999, 'timeout after %d s' % timeout, fn

    def symx(self):
        t = time.time()
        bc = self.p('.bc')
        r = sh([LLVM + '/clang++'] + BC_FLAGS + self.defs + INC + ['-emit-llvm', '-c', self.src, '-o', bc])
        if r.returncode:
            raise RuntimeError('harness does not compile: ' + ' | '.join([l for l in r.stdout.splitlines() if 'error:' in l][:4]))
        self.compile_s = time.time() - t
        out = self.p('.json')
        cmd = [os.path.join(HERE, 'build/symx'), bc, '-o', out, '-j', str(self.jobs), '--seed', str(self.seed), '--deadline', str(self.deadline), '--prefix', REPO + '/include']
        o = dict(self.u.get('opts', {}))
        o.update(self.u.get('opts_' + self.tier, {}))
        for k, v in o.items():
            cmd += ['--' + k, str(v)]
        for e in self.entries:
            cmd += ['--entry', e]
        r = sh(cmd)
        if not os.path.exists(out):
            raise RuntimeError('symx failed: ' + r.stdout[-2000:])
        top = json.load(open(out))
        parts = [top] if 'workers' not in top else [json.load(open(f)) for f in top['workers'] if os.path.exists(f)]
        if 'workers' in top and len(parts) < len(top['workers']):
            raise RuntimeError('a symx worker died (out of memory?): ' + r.stdout[-500:])
        m = {'entries': {}, 'labels': {}, 'labels_symbolic': {}, 'reach': {}, 'violations': [], 'samples': [], 'lines': {}, 'functions': set(), 'errors': [], 'pending': top.get('unstarted', 0)}
        for d in parts:
            for k, v in d.items():
                if k in ('pending',):
                    m[k] += v
                elif k == 'max_query_ms':
                    m[k] = max(m.get(k, 0), v)
                elif isinstance(v, (int, float)):
                    m[k] = m.get(k, 0) + v
            for e, x in d['entries'].items():
                y = m['entries'].setdefault(e, {})
                for k in x:
                    y[k] = y.get(k, 0) + x[k]
            for n in ('labels', 'labels_symbolic', 'reach'):
                for k, v in d[n].items():
                    m[n][k] = m[n].get(k, 0) + v
            m['violations'] += d['violations']
            m['samples'] += d['samples']
            for f, l in d['lines'].items():
                m['lines'].setdefault(f, set()).update(l)
            m['functions'].update(d['functions'])
            if d['error']:
                m['errors'].append(d['error'])
        self.res = m
        self.symx_s = time.time() - t

    def run(self):
        try:
            if self.u.get('runner'):
                C.RUNNERS[self.u['runner']](self)
                return
            with ThreadPoolExecutor(2) as ex:
                nat = ex.submit(self.build_native, 'plain')
                self.symx()
                exe = nat.result()
            if self.u.get('nofallthrough'):
                pass
            # violations first: replay on the real code
            seen = set()
            for v in self.res['violations']:
                key = (v['entry'], v['kind'], v['msg'])
                if key in seen:
                    continue
                seen.add(key)
                ok, how, fn = self.confirm(v)
                v['confirmed'], v['how'], v['infile'] = ok, how, fn
                self.viol.append(v)
                if sum(1 for x in self.viol if x['confirmed']) >= 3:
                    break
            # engine validation on sampled paths
            import random
            rng = random.Random(self.seed)
            sm = list(self.res['samples'])
            rng.shuffle(sm)
            byent = {}
            for s in sm:
                byent.setdefault(s['entry'], []).append(s)
            pick = []
            lim = 16 if self.tier == 'quick' else 60
            while len(pick) < lim and any(byent.values()):
                for e in list(byent):
                    if byent[e] and len(pick) < lim:
                        pick.append(byent[e].pop())
            self.sampled = []
            for s in pick:
                rc, out, fn = self.run_native(exe, s['entry'], s['inputs'])
                got = [l.split()[1] for l in out.splitlines() if l.startswith('OBS ')]
                want = s['obs']
                end = 'VP-EXPECTED' if s['expected'] else 'VP-DONE'
                if rc != 0 or got != want or end not in out:
                    if self.res['violations']:
                        continue
                    # the same inputs misbehave natively: if the harness's own oracle fails there, that is a real failure
                    if rc == 42 or rc < 0:
                        v = {'entry': s['entry'], 'kind': 'native', 'msg': 'native run of a solver-chosen input fails: ' + (out.strip().splitlines() or ['crash'])[0], 'where': '', 'stack': [], 'inputs': s['inputs'], 'confirmed': True, 'how': 'plain build, exit %d' % rc, 'infile': fn}
                        self.viol.append(v)
                        break
                    raise RuntimeError('engine validation mismatch in %s/%s: rc=%s want=%s got=%s inputs=%s' % (self.name, s['entry'], rc, want, got, s['inputs']))
                self.validated += 1
                os.unlink(fn)
                self.sampled.append(s)
            # verdict completeness
            if not self.viol:
                if self.res['errors']:
                    raise RuntimeError('; '.join(sorted(set(self.res['errors']))[:3]))
                if self.res['pending']:
                    raise RuntimeError('exploration incomplete: %d states left at the deadline' % self.res['pending'])
                for e, x in self.res['entries'].items():
                    if x['paths'] == 0:
                        raise RuntimeError('vacuous: no complete path in entry ' + e)
        except Exception as e:
            self.error = '%s: %s' % (self.name, e)

    def confirm(self, v):
        tries = ['plain', 'asan', 'pat', 'msan', 'o2', 'zero']
        if v['kind'] == 'memory':
            tries = ['asan', 'plain', 'pat', 'msan']
        fn = None
        last = ''
        for k in tries:
            try:
                exe = self.build_native(k)
            except RuntimeError as e:
                last = str(e)
                continue
            if not exe:
                continue
            rc, out, fn = self.run_native(exe, v['entry'], v['inputs'], 10 if v['kind'] == 'nontermination' else 20)
            if rc not in (0, 43, 44, 99):
                first = ' | '.join([l for l in out.strip().splitlines() if 'VP-FAIL' in l or 'ERROR' in l or 'runtime error' in l or 'WARNING' in l][:2]) or 'exit status %d' % rc
                return True, '%s build: %s' % (k, first), fn
            last = '%s build: rc=%d %s' % (k, rc, out.strip()[-200:])
        return False, last, fn


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', action='append', default=[])
    ap.add_argument('--entry', action='append', default=[])
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--lines', help='dump executed lines (json)')
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = C.CHECKS[pid]
    t0 = time.time()
    if not os.path.exists(os.path.join(HERE, 'build/symx')):
        r = sh([os.path.join(HERE, 'symx/build.sh')])
        if r.returncode:
            print(r.stdout)
            return 2
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence/replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=os.path.join(HERE, 'build'))
    ncpu = os.cpu_count() or 8
    units = [u for u in chk['units'] if not a.unit or u['name'] in a.unit]
    units = [u for u in units if not u.get('tier') or u['tier'] == tier]
    conc = max(1, min(len(units), 4))
    jobs = a.jobs or max(2, (ncpu + conc - 1) // conc + (1 if conc > 1 else 0))
    deadline = 700 if tier == 'quick' else 5400
    objs = [Unit(chk, u, tier, tmp, jobs, a.entry, seed, deadline) for u in units]
    with ThreadPoolExecutor(conc) as ex:
        list(ex.map(lambda o: o.run(), objs))
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k.get('property') == pid and k.get('status') == 'known']
    rc = 0
    viols = 0
    errs = []
    for o in objs:
        if o.error:
            errs.append(o.error)
        for i, v in enumerate(o.viol):
            if not v['confirmed']:
                errs.append('counterexample of %s/%s not reproduced natively: %s: %s at %s (%s) inputs=%s' % (o.name, v['entry'], v['kind'], v['msg'], v['where'], v['how'], v['inputs']))
                continue
            kn = [k for k in known if k['unit'] == o.name and k['entry'] == v['entry'] and k['msg'] == v['msg']]
            if kn:
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[0]['what']))
                continue
            viols += 1
            rp = os.path.join(HERE, 'evidence/replay/%s-%s-%d.json' % (pid, o.name, i))
            json.dump({'property': pid, 'unit': o.name, 'src': o.u.get('src'), 'defs': o.defs, 'entry': v['entry'], 'kind': v['kind'], 'what': v['msg'], 'where': v['where'], 'stack': v['stack'], 'inputs': v['inputs'], 'confirmed_by': v['how'],
                       'how_to_replay': './replay.sh <this file>'}, open(rp, 'w'), indent=1)
            print('%s in %s/%s: %s  [%s]  at %s' % (v['kind'], o.name, v['entry'], v['msg'], v['how'], v['where'].split(' <- ')[0]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
    if errs and rc == 0:
        rc = 2
    for e in errs[:6]:
        print('ERROR ' + e)
    # labels must all have been reached somewhere in the check
    done = [o for o in objs if o.res]
    tot = lambda k: sum(o.res.get(k, 0) for o in done)
    paths = sum(x['paths'] for o in done for x in o.res['entries'].values())
    lines = {}
    for o in done:
        for f, l in o.res['lines'].items():
            lines.setdefault(f, set()).update(l)
    fns = sorted(set().union(*[o.res['functions'] for o in done])) if done else []
    samples = []
    for o in done:
        for s in getattr(o, 'sampled', [])[:3]:
            samples.append({'unit': o.name, 'entry': s['entry'], 'solver_inputs': [x[2] for x in s['inputs']], 'observed': s['obs'][:40], 'native_run': 'agrees'})
    cov = {
        'states': paths, 'transitions': tot('branches'), 'traces_validated_against_impl': sum(o.validated for o in objs), 'samples': samples[:40],
        'paths_completed': paths, 'forks': tot('forks'), 'instructions_executed_symbolically': tot('instr'),
        'queries': tot('queries'), 'queries_sat': tot('qsat'), 'queries_unsat': tot('qunsat'), 'decided_by_cached_unsat_core': tot('core_hits'), 'decided_by_cached_model': tot('model_hits'), 'decided_by_verified_order_model': tot('guess_hits'),
        'assertions_evaluated': tot('asserts'), 'assertions_symbolic_needing_solver': tot('assert_queries'), 'solver_s': round(tot('solver_s'), 2), 'max_query_ms': max([o.res.get('max_query_ms', 0) for o in done] or [0]),
        'bounds': chk['bounds'] if isinstance(chk['bounds'], str) else chk['bounds'][tier], 'outside_bounds': chk.get('outside', 'larger sizes, longer histories and element/hook configurations not instantiated in the harness units'),
        'units': {o.name: {'harness': o.u.get('src'), 'defs': o.defs, 'entries': o.res['entries'] if o.res else None, 'wall_s': round(getattr(o, 'symx_s', 0), 1)} for o in objs},
        'assertion_labels': {k: v for o in done for k, v in o.res['labels'].items()},
        'functions_encoded': fns, 'source_lines_executed': {f: len(l) for f, l in sorted(lines.items())},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': C.ASSUMPTIONS + chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': viols, 'errors': errs, 'technique': chk.get('technique', C.TECHNIQUE)}
    if not a.unit and not a.entry:
        json.dump(ev, open(os.path.join(HERE, 'evidence/%s.json' % pid), 'w'), indent=1)
    if a.lines:
        json.dump({f: sorted(l) for f, l in lines.items()}, open(a.lines, 'w'))
    print('%s %s: %d units, %d paths, %d branch decisions, %d solver queries (%.1f s), %d assertions, %d traces validated natively, %d violations, %d errors, %.1f s' % (pid, tier, len(objs), paths, tot('branches'), tot('queries'), tot('solver_s'), tot('asserts'), cov['traces_validated_against_impl'], viols, len(errs), time.time() - t0))
    if a.unit or a.entry or a.keep:
        for o in done:
            print('  ', o.name, '%.1fs compile %.1fs' % (o.symx_s, o.compile_s), {k: (v['paths'], v['assumed'], v['expected']) for k, v in o.res['entries'].items()})
    if not a.keep:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
