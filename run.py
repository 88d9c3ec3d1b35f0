#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py C01 [--only CASE] [--job JOB]

Builds the monitors of the property together with the sources of the current
working tree of /repo, runs the workload, collects what the monitors observed,
writes evidence/<id>.json and reports violations.

exit 0: the property held on everything observed
exit 1: violated (or the calls the property is about no longer compile), with a line  VIOLATION property=<id> replay=<path>
exit 2: no verdict (the machinery could not be built or observed too little)
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get('HV_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 1)

import checks as CH  # noqa: E402


class DoesNotCompile(Exception):
    pass


class Inconclusive(Exception):
    pass


def printable(s):
    """names of sparse jets may hold any bytes"""
    return ''.join(c if c in '\n\t' or ' ' <= c <= '~' else '\\x%02x' % ord(c) for c in s)


def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dirs, fs in os.walk(root):
                dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x != '__pycache__')
                files += [os.path.join(d, f) for f in sorted(fs) if not f.startswith('.')]
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as s:
                h.update(s.read())
    return h.hexdigest()


def sh(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace')


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.spec = CH.CHECKS[pid]
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.build = os.path.join(VERIF, 'build', pid)
        self.out = os.path.join(VERIF, 'out', pid)
        self.t0 = time.time()
        self.log_lock = threading.Lock()

    def log(self, *a):
        with self.log_lock:
            print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- building

    def fresh_build_dir(self):
        key = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'python', 'src'),
                         os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'checks.py'), os.path.join(VERIF, 'run.py')], REPO)
        stamp = os.path.join(self.build, 'stamp')
        try:
            with open(stamp) as s:
                if s.read() == key:
                    return
        except OSError:
            pass
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        with open(stamp, 'w') as s:
            s.write(key)

    def compile_all(self, units):
        """units: list of (target, command[, stage]); existing targets are up to date"""
        units = list({u[0]: u for u in units}.values())
        for stage in sorted({u[2] if len(u) > 2 else 0 for u in units}):
            self.compile_stage([u for u in units if (u[2] if len(u) > 2 else 0) == stage and not os.path.exists(u[0])])

    def compile_stage(self, todo):
        if not todo:
            return
        tmpdir = os.path.join(self.build, 'tmp')
        os.makedirs(tmpdir, exist_ok=True)
        env = dict(os.environ, TMPDIR=tmpdir, LC_ALL='C')

        def one(u):
            target, cmd = u[:2]
            part = target + '.part'
            rc, out = sh([part if c == '@OUT@' else c for c in cmd], 700, env=env)
            if rc != 0:
                return '%s\n%s' % (' '.join(cmd), out[-3000:])
            os.rename(part, target)
            return None

        with ThreadPoolExecutor(NPROC) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            # A template that no longer compiles for a type the monitor of this property uses
            # is a violation for all inputs of that type; anything else is no verdict.
            own = re.escape(self.pid.lower()) + r'\.cpp:\d+:\d+:\s+(required from|error:|note: in instantiation)'
            for e in errs:
                if re.search(r': error: ', e) and re.search(own, e) and not re.search(r'fatal error|Killed|out of memory', e):
                    raise DoesNotCompile(e)
            raise Inconclusive('the monitors do not compile against the current tree:\n' + errs[0])
        self.log('compiled %d units' % len(todo))

    # ------------------------------------------------------------- running

    def run_jobs(self, jobs, only=None):
        """jobs: list of dicts name, cmd, env, timeout; each writes a json file"""
        os.makedirs(self.out, exist_ok=True)

        def one(job):
            js = os.path.join(self.out, job['name'] + '.json')
            cf = os.path.join(self.out, job['name'] + '.case')
            for attempt in range(2):
                for f in (js, cf):
                    if os.path.exists(f):
                        os.unlink(f)
                cmd = list(job['cmd']) + ['--seed', str(self.seed), '--tier', self.tier, '--scale', str(job['scale']), '--json', js, '--case', cf]
                if only:
                    cmd += ['--only', only]
                env = dict(os.environ)
                env.update(job['env'])
                t = time.time()
                rc, out = sh(cmd, job['timeout'], env=env, cwd=self.out)
                if rc is not None:
                    break
            case = ''
            try:
                with open(cf, 'rb') as s:
                    case = s.read().split(b'\0')[0].decode('utf-8', 'replace')
            except OSError:
                pass
            if rc is None:
                res = {'crash': 'hang', 'case': case, 'out': out[-6000:]}
            elif rc != 0 or not os.path.exists(js):
                if rc in (2, 3, 4) and not re.search(r'Sanitizer|runtime error', out):
                    res = {'error': 'exit %s: %s' % (rc, out[-3000:])}
                else:
                    res = {'crash': self.crash_kind(rc, out), 'case': case, 'out': self.crash_text(out)}
            else:
                with open(js) as s:
                    res = json.load(s)
            res['wall'] = time.time() - t
            res['job'] = job
            res['cmd'] = cmd
            return res

        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(one, jobs))

    @staticmethod
    def crash_kind(rc, out):
        m = re.search(r'ERROR: \w+Sanitizer: ([\w-]+)', out) or re.search(r'WARNING: (ThreadSanitizer: [\w -]+?) \(', out)
        if m:
            return m.group(1).replace(' ', '-')
        m = re.search(r'runtime error: ([^\n]*)', out)
        if m:
            return 'ub:' + re.sub(r'\W+', '-', re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m.group(1)))[:60]
        m = re.search(r'Assertion [`\'](.*?)\' failed', out)
        if m:
            return 'assert:' + re.sub(r'\W+', '-', m.group(1))[:60]
        if 'ERROR: LeakSanitizer' in out:
            return 'leak'
        m = re.search(r'==\d+== (Invalid read|Invalid write|Conditional jump|Use of uninitialised|Syscall param|\d[\d,]* (?:\([^)]*\) )?bytes in .* definitely lost|Invalid free|Mismatched free)', out)
        if m:
            return 'valgrind:' + re.sub(r'[\d,]+ ', '', m.group(1)).replace(' ', '-')
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", out)
        if m:
            return 'uncaught:' + m.group(1)
        return 'exit%s' % rc

    @staticmethod
    def crash_text(out):
        i = max(0, min([x for x in (out.find('ERROR: '), out.find('runtime error'), out.find('WARNING: Thread'), out.find('Assertion')) if x >= 0] or [len(out) - 4000]) - 300)
        return out[i:i + 6000]

    # ------------------------------------------------------------- verdict

    def known(self):
        res = {}
        try:
            with open(os.path.join(VERIF, 'known_findings.txt')) as s:
                for line in s:
                    m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                    if m and m.group(1) == self.pid:
                        res[m.group(2)] = m.group(3).strip()
        except OSError:
            pass
        return res

    @staticmethod
    def compare_digests(results, counters):
        """the same case has to give the same digest in every job of a group"""
        first, viols = {}, []
        for r in results:
            group = r['job'].get('group')
            if not group:
                continue
            for case, d in r.get('digests', {}).items():
                if (group, case) not in first:
                    first[group, case] = (d, r)
                    continue
                counters['digests_compared'] = counters.get('digests_compared', 0) + 1
                d0, r0 = first[group, case]
                if d0 != d:
                    viols.append(('digest/%s' % case.split('/')[0], 'case %s\nobserved %s in %s and %s in %s' % (case, d0, r0['job']['name'], d, r['job']['name']), r))
        return viols

    def conclude(self, results):
        spec = self.spec
        viols, errors = [], []
        cov = {'evaluations': 0, 'distinct_nontrivial': 0}
        counters, samples, per_job = {}, [], {}
        for r in results:
            name = r['job']['name']
            if 'error' in r:
                errors.append('%s: %s' % (name, r['error']))
                continue
            if 'crash' in r:
                case = r['case'].split(' :: ')[0]
                key = 'crash/%s/%s' % (r['crash'], re.sub(r'/?\d*$', '', case))
                viols.append((key, 'job %s died (%s) in case %s\n%s' % (name, r['crash'], r['case'], r['out']), r))
                continue
            cov['evaluations'] += r['evaluations']
            cov['distinct_nontrivial'] += r['distinct']
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
            samples += [s[:600] for s in r['samples'][:2]]
            per_job[name] = {'evaluations': r['evaluations'], 'distinct': r['distinct'], 'wall_s': round(r['wall'], 2)}
            for k, d in r['violations']:
                viols.append((k, d, r))
        viols += self.compare_digests(results, counters)
        known = self.known()
        seen_known, fresh = set(), []
        for k, d, r in viols:
            if k in known:
                seen_known.add(k)
            else:
                fresh.append((k, d, r))
        cov['rule'] = spec['rule']
        cov['samples'] = samples[:12]
        cov['observed'] = counters
        cov['jobs'] = per_job
        if spec.get('note'):
            cov['configurations'] = spec['note']
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        if seen_known:
            ev['coverage']['known_findings_seen'] = sorted(seen_known)
        if errors:
            ev['coverage']['errors'] = errors
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as s:
            json.dump(ev, s, indent=1)
            s.write('\n')
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        if fresh:
            k, d, r = fresh[0]
            path = os.path.join(self.out, 'violation.txt')
            with open(path, 'w') as s:
                s.write('property: %s (%s)\nkey: %s\nseed: %d tier: %s\n\n' % (self.pid, spec['title'], printable(k), self.seed, self.tier))
                m = re.match(r'case (\S.*)', d)
                case = m.group(1) if m else r.get('case', '').split(' :: ')[0]
                s.write('replay (after the check has built its monitors):\n  cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --job %s --only %s\n\n' % (
                    self.seed, self.tier, self.pid, r['job']['name'], json.dumps(case)))
                for k, d, r in fresh[:20]:
                    s.write(printable('--- %s (job %s)\n%s\n\n' % (k, r['job']['name'], d)))
            for k, d, r in fresh[:3]:
                print(printable('violation %s\n%s' % (k, d[:1500])))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if errors:
            print(printable('no verdict: ' + '\n'.join(errors)[:4000]))
            return 2
        missing = [k for k in spec.get('require', []) if not counters.get(k)]
        if missing or cov['evaluations'] < spec.get('min_evaluations', 1):
            print('no verdict: too few events observed, missing %s, evaluations %d' % (missing, cov['evaluations']))
            return 2
        print('held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (
            self.pid, self.tier, self.seed, cov['evaluations'], cov['distinct_nontrivial'], ev['wall_s']))
        return 0

    def main(self, only=None, jobname=None):
        self.fresh_build_dir()
        jobs = self.spec['make'](self)
        if jobname:
            jobs = [j for j in jobs if j['name'] == jobname]
        for j in jobs:
            j.setdefault('env', {})
            j.setdefault('timeout', 280 if self.tier == 'quick' else 3000)
            j.setdefault('scale', 1)
        results = self.run_jobs(jobs, only)
        if only or jobname:
            self.spec = dict(self.spec, require=[], min_evaluations=0)
            self.pid_only = True
        return self.conclude(results)


def main(argv):
    pid = argv[1]
    opt = dict(zip(argv[2::2], argv[3::2]))
    c = Check(pid)
    try:
        return c.main(opt.get('--only'), opt.get('--job'))
    except DoesNotCompile as e:
        return c.conclude([{'job': {'name': 'build'}, 'crash': 'does_not_compile', 'case': 'build', 'out': str(e), 'wall': 0}])
    except Inconclusive as e:
        print('no verdict: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv))
