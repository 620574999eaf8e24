#!/usr/bin/env python3
"""Decides one property of /repo by run-time monitoring.

  run.py PROPERTY [--tier quick|thorough] [--seed N] [--case K [--flavour F]] [--cases N] [--jobs N]

Builds the harness from /repo's current working tree (content-addressed object cache in build/),
runs the property's numbered cases in parallel shards, collects what the monitors reported,
writes evidence/PROPERTY.json and ends with 0 (held on everything observed) or
1 and a VIOLATION line.  Anything else is an error of the check itself (exit 2).
"""
import argparse, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS, BINARIES  # noqa: E402

REPO = os.environ.get('ECL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HANG_S = 150


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def header_digest():
    h = hashlib.sha256()
    dirs = [os.path.join(REPO, d) for d in ('.', 'EKF', 'geo', 'geo_lookup', 'airdata', 'mathlib', 'AlphaFilter')]
    dirs += [os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness/include/matrix')]
    for d in dirs:
        for f in sorted(glob.glob(d + '/*.h') + glob.glob(d + '/*.hpp')):
            h.update(f.encode())
            h.update(read(f))
    return h.hexdigest()


def ecl_sources(with_filter):
    # the stand-alone parts do not need the units of the navigation filter class
    out = []
    for d in ('EKF', 'geo', 'geo_lookup', 'airdata'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.cpp'))):
            if with_filter or not re.search(rb'#\s*include\s*["<][^">]*(ekf|estimator_interface)\.h[">]', read(f)):
                out.append(f)
    return out


def build(binary, flavour, jobs):
    """Compiles the harness binary in the given flavour; returns its path."""
    fl = FLAVOURS[flavour]
    common = ['-std=c++14', '-g', '-DECL_STANDALONE', '-DMODULE_NAME="verif"', '-w', '-fno-strict-aliasing',
              '-I' + REPO, '-I' + REPO + '/EKF', '-I' + REPO + '/geo', '-I' + REPO + '/geo_lookup',
              '-I' + os.path.join(VERIF, 'harness/include'), '-I' + os.path.join(VERIF, 'harness')]
    hd = header_digest()
    os.makedirs(BUILD, exist_ok=True)
    objs, todo = [], []
    units = [(s, True) for s in ecl_sources(BINARIES[binary].get('filter', True))]
    units += [(os.path.join(VERIF, 'harness', s), False) for s in BINARIES[binary]['sources'] + ['vh_main.cpp']]
    for src, is_ecl in units:
        cmd = [fl['cxx']] + fl['flags'] + common + (fl.get('ecl_flags', []) if is_ecl else fl.get('harness_flags', []))
        key = sh_hash(' '.join(cmd), hd, read(src), src)[:32]
        obj = os.path.join(BUILD, key + '.o')
        objs.append(obj)
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp' % os.getpid()
            todo.append((cmd + ['-c', src, '-o', tmp], tmp, obj))
    todo.sort(key=lambda t: 0 if 'covariance' in t[0][-3] or 'mag_fusion' in t[0][-3] else 1)

    def comp(t):
        r = subprocess.run(t[0], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(t[1], t[2])
        return r

    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(comp, todo):
            if r.returncode != 0:
                print('BUILD FAILED: %s\n%s' % (' '.join(r.args), r.stderr[-4000:]))
                sys.exit(2)
    exe = os.path.join(BUILD, binary + '-' + flavour + '-' + sh_hash(*objs)[:20])
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        cmd = [fl['cxx']] + fl['flags'] + objs + ['-o', tmp, '-lpthread'] + fl.get('link', [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            print('LINK FAILED:\n%s' % r.stderr[-4000:])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


class Shard:
    def __init__(self, exe, flavour, prop, seed, frm, to, step, thorough, tmpdir):
        self.exe, self.flavour, self.prop, self.seed = exe, flavour, prop, seed
        self.frm, self.to, self.step, self.thorough, self.tmpdir = frm, to, step, thorough, tmpdir
        self.viol, self.stats, self.distinct = [], [], set()
        self.error = None
        self.cases_done = 0

    def once(self, frm, to, step, hang_s):
        log = os.path.join(self.tmpdir, 'san-%d-%d' % (id(self), frm))
        env = dict(os.environ)
        env.pop('LD_PRELOAD', None)
        opt = 'log_path=%s:exitcode=66:abort_on_error=0:allocator_may_return_null=1:halt_on_error=1' % log
        env['ASAN_OPTIONS'] = opt + ':detect_leaks=1:detect_stack_use_after_return=1'
        env['UBSAN_OPTIONS'] = opt + ':print_stacktrace=1'
        env['MSAN_OPTIONS'] = opt
        env['TSAN_OPTIONS'] = opt
        cmd = [self.exe, '--prop=' + self.prop, '--seed=%d' % self.seed, '--from=%d' % frm, '--to=%d' % to,
               '--step=%d' % step] + (['--thorough'] if self.thorough else [])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, errors='replace',
                             cwd=self.tmpdir)
        state = {'case': None, 'done': False, 't': time.time(), 'hung': False}

        def watchdog():
            while p.poll() is None:
                time.sleep(0.5)
                if time.time() - state['t'] > hang_s:
                    state['hung'] = True
                    p.kill()
                    return
        w = threading.Thread(target=watchdog, daemon=True)
        w.start()
        for line in p.stdout:
            if line.startswith('CASE '):
                state['case'] = int(line[5:])
                state['t'] = time.time()
            elif line.startswith('VIOL '):
                try:
                    self.viol.append(json.loads(line[5:]))
                except ValueError:
                    self.viol.append({'key': 'unparsable', 'case': state['case'], 'msg': line[:500], 'log': ''})
            elif line.startswith('STATS '):
                self.stats.append(json.loads(line[6:]))
            elif line.startswith('DISTINCT '):
                self.distinct.update(line.split()[2:])
            elif line.startswith('DONE'):
                state['done'] = True
        rc = p.wait()
        w.join()
        report = ''
        for f in glob.glob(log + '*'):
            with open(f, errors='replace') as fh:
                report += fh.read()
        return rc, state, report

    def run(self):
        frm = self.frm
        restarts = 0
        while frm < self.to:
            rc, st, report = self.once(frm, self.to, self.step, HANG_S)
            if st['done'] and rc == 0:
                return
            if st['case'] is None and not st['hung']:
                self.error = 'harness did not start (exit %s) %s' % (rc, report[-500:])
                return
            case = st['case']
            if st['hung']:
                # a slow machine is not a hang: run that case alone once more, with more time
                rc2, st2, rep2 = self.once(case, case + 1, 1, 2 * HANG_S)
                if st2['hung']:
                    self.viol.append({'key': 'hang', 'case': case, 'msg': 'case did not finish', 'log': ''})
                elif not st2['done']:
                    self.crash(case, rc2, rep2)
            elif st['done'] and rc == 66:  # leak report at exit
                self.crash(case, rc, report)
                return
            elif rc == 3 or rc == -signal.SIGKILL:
                self.error = 'harness error (exit %s)' % rc
                return
            else:
                self.crash(case, rc, report)
            frm = case + self.step
            restarts += 1
            if restarts >= 3:
                return

    def crash(self, case, rc, report):
        m = re.search(r'runtime error: (.*)', report)
        if m:
            loc = re.search(r'([\w.]+\.(?:cpp|hpp|h)):(\d+):\d+: runtime error', report)
            what = re.sub(r'-?\d[\d.e+]*', 'N', m.group(1))
            key = 'ubsan:%s:%s' % (loc.group(1) if loc else '?', what[:80])
        else:
            m = re.search(r'SUMMARY: (\w+): ([\w-]+)(.*)', report)
            if m:
                fn = re.search(r' in ([\w:~]+)', m.group(3))
                key = '%s:%s:%s' % (m.group(1), m.group(2), fn.group(1) if fn else '')
            else:
                key = 'crash:signal%d' % -rc if rc < 0 else 'crash:exit%d' % rc
        self.viol.append({'key': key, 'case': case, 'msg': 'execution aborted (exit %d)' % rc, 'log': report[:6000]})


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true', help='only check that the tools are there')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--case', type=int)
    ap.add_argument('--flavour')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    a = ap.parse_args()
    if a.setup:
        # every check rebuilds what it needs from /repo, so there is nothing to prepare
        for t in sorted({f['cxx'] for f in FLAVOURS.values()}):
            if not shutil.which(t):
                print('missing tool', t)
                return 1
        return 0
    if a.prop not in CHECKS:
        print('unknown property', a.prop)
        return 2
    chk = CHECKS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    if a.case is not None:
        fl = a.flavour or chk['runs'][0]['flavour']
        exe = build(chk['binary'], fl, a.jobs)
        cmd = [exe, '--prop=' + a.prop, '--seed=%d' % seed, '--from=%d' % a.case, '--to=%d' % (a.case + 1), '--verbose']
        if tier == 'thorough':
            cmd.append('--thorough')
        return subprocess.run(cmd).returncode

    stats_all, viols, distinct = [], [], set()
    tmpdir = tempfile.mkdtemp(prefix='eclverif-')
    flav_report = []
    try:
        for run in chk['runs']:
            n = a.cases or run['cases'][1 if tier == 'thorough' else 0]
            if n == 0 or (a.flavour and a.flavour != run['flavour']):
                continue
            exe = build(chk['binary'], run['flavour'], a.jobs)
            k = min(a.jobs, n)
            shards = [Shard(exe, run['flavour'], a.prop, seed, i, n, k, tier == 'thorough', tmpdir) for i in range(k)]
            with ThreadPoolExecutor(k) as ex:
                list(ex.map(lambda s: s.run(), shards))
            ncase = 0
            for s in shards:
                if s.error:
                    print('ERROR of the check:', s.error)
                    return 2
                for v in s.viol:
                    v['flavour'] = run['flavour']
                viols += s.viol
                stats_all += s.stats
                distinct |= s.distinct
                ncase += sum(x['cases'] for x in s.stats)
            flav_report.append({'build': run['flavour'], 'flags': ' '.join(FLAVOURS[run['flavour']]['flags']), 'cases': ncase})
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)

    counters, maxima, samples = {}, {}, []
    ev = 0
    for s in stats_all:
        ev += s['evaluations']
        for k, v in s['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s['maxima'].items():
            maxima[k] = max(maxima.get(k, v), v)
        samples += s['samples']
    known = [k for k in load_known() if k['property'] == a.prop]
    known_hit, fresh = {}, []
    for v in viols:
        m = [k for k in known if k['key'] == v['key'] and (not k.get('match') or re.search(k['match'], v['msg'] + v['log']))]
        if m:
            known_hit.setdefault(m[0]['key'], []).append(v)
        else:
            fresh.append(v)
    missing = [] if a.cases else [c for c in chk.get('must_observe', []) if counters.get(c, 0) == 0]
    # the workload is built to reach each of these: not reaching one is a deviation in itself
    for c in missing:
        fresh.append({'key': 'never-observed:' + c, 'case': -1, 'msg': 'the workload never produced "%s"' % c,
                      'log': '', 'flavour': chk['runs'][0]['flavour']})
    evid = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(distinct), 'rule': chk['rule'],
            'samples': samples[:6] or ['(none recorded)'],
            'cases': sum(x['cases'] for x in stats_all), 'observed': counters, 'peaks': maxima, 'builds': flav_report,
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (a.prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evid, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', a.prop + '.json'))

    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    print('%s %s seed=%d: %d monitor evaluations over %d cases, %d distinct non-trivial, %.1f s' % (
        a.prop, tier, seed, ev, evid['coverage']['cases'], len(distinct), evid['wall_s']))
    if fresh:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in fresh:
            if v['key'] in seen or len(seen) >= 12:
                continue
            seen.add(v['key'])
            name = '%s-%s-%s.json' % (a.prop, re.sub(r'\W+', '_', v['key'])[:60], v['case'])
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump({'property': a.prop, 'violation': v, 'seed': seed, 'tier': tier,
                           'replay': 'cd %s && python3 run.py %s --tier %s --seed %d --flavour %s --case %s' % (
                               VERIF, a.prop, tier, seed, v['flavour'], v['case'])}, f, indent=1)
            print('  [%s] case %s: %s' % (v['key'], v['case'], v['msg'][:400]))
            print('VIOLATION property=%s replay=%s' % (a.prop, os.path.relpath(path, VERIF)))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
