#!/usr/bin/env python3
"""Property-based testing / fuzzing driver.

  check.py <ID> [quick|thorough]      decide one property on /repo's current tree
  check.py --replay <file>            re-evaluate a recorded counterexample

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, 'harness')
REPO = os.environ.get('PBT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
KNOWN = os.path.join(HERE, 'known_findings.txt')
NPROC = 8
MAXLEN = 4000

sys.path.insert(0, HERE)
from config import CONFIG, DEFAULTS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def sh(cmd, env=None, timeout=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')


def lib_sources():
    return sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(('.cpp', '.cc', '.cxx')))


def mine_dictionary(path):
    """Integer literals of the code under test: they guide generation only."""
    vals = set()
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(('.hpp', '.cpp', '.h', '.cc', '.cxx')):
            continue
        t = open(os.path.join(SRC, f), errors='replace').read()
        t = re.sub(r'//[^\n]*', ' ', t)
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)(\.\d*)?([eE][+-]?\d+)?", t):
            s = m.group(0).replace("'", '')
            try:
                v = int(s, 16) if s[:2] in ('0x', '0X') else int(float(s)) if m.group(2) or m.group(3) else int(s, 10)
            except (ValueError, OverflowError):
                continue
            if abs(v) < 2 ** 62:
                vals.add(v)
    with open(path, 'w') as o:
        o.write('\n'.join(str(v) for v in sorted(vals)) + '\n')
    return len(vals)


SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']


class Build:
    def __init__(self, pid, d):
        self.pid, self.d = pid, d

    def _run(self, cmds):
        with ThreadPoolExecutor(NPROC) as ex:
            for cmd, (rc, out) in zip(cmds, ex.map(sh, cmds)):
                if rc != 0:
                    raise BuildError('%s\n%s' % (' '.join(cmd), out[-6000:]))

    def all(self, fuzz=True):
        d, pid = self.d, self.pid
        prop = os.path.join(H, 'props', pid + '.cpp')
        cfg = dict(DEFAULTS, **CONFIG.get(pid, {}))
        g = ['g++', '-std=c++17', '-g1', '-w', '-I' + SRC]
        gd = g + ['-O2', '-DDEBUG', '-D_GLIBCXX_ASSERTIONS'] + cfg.get('gxx', [])
        c = ['clang++', '-std=c++17', '-g1', '-O1', '-w', '-I' + SRC] + SAN
        cmds = [g + ['-O1', '-c', os.path.join(H, 'rc_main.cpp'), '-o', d + '/rc_main.o'],
                gd + ['-c', prop, '-o', d + '/prop_g.o']]
        go = []
        co = []
        for s in lib_sources():
            b = os.path.splitext(os.path.basename(s))[0]
            cmds.append(gd + ['-c', s, '-o', '%s/lib_%s_g.o' % (d, b)])
            go.append('%s/lib_%s_g.o' % (d, b))
            if fuzz:
                cmds.append(c + ['-fsanitize=fuzzer-no-link'] + ['-c', s, '-o', '%s/lib_%s_c.o' % (d, b)])
                co.append('%s/lib_%s_c.o' % (d, b))
        if fuzz:
            cmds.insert(1, c + ['-fsanitize=fuzzer-no-link'] + ['-c', prop, '-o', d + '/prop_c.o'])
            cmds.insert(1, c + ['-c', os.path.join(H, 'fuzz_main.cpp'), '-o', d + '/fuzz_main.o'])
        self._run(cmds)
        link = [['g++', '-o', d + '/rc', d + '/rc_main.o', d + '/prop_g.o'] + go + ['-lrapidcheck', '-lpthread'] + cfg.get('ldflags', [])]
        if fuzz:
            link.append(['clang++'] + SAN + ['-fsanitize=fuzzer', '-o', d + '/fuzz', d + '/fuzz_main.o', d + '/prop_c.o'] + co + cfg.get('ldflags', []))
        self._run(link)


def read_shm(path, subs):
    """Case that was being evaluated when the process ended, or None."""
    try:
        b = open(path, 'rb').read(40)
        ev, nt, rnd, sub, ln = struct.unpack('<QQQii', b[:32])
        if ln < 0:
            return ev, nt, None
        raw = open(path, 'rb').read(32 + 8 * ln)[32:]
        return ev, nt, (subs[sub], list(struct.unpack('<%dq' % ln, raw)))
    except Exception:
        return 0, 0, None


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = dict(DEFAULTS, **CONFIG.get(pid, {}))
        self.d = os.path.join(HERE, 'build', '%s-%s-%d' % (pid, tier, os.getpid()))
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.fail = None
        self.lock = threading.Lock()
        self.procs = set()
        self.notes = []
        self.job_info = []
        self.deadline = time.time() + (self.cfg['cap_quick'] if tier == 'quick' else self.cfg['cap_thorough'])

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('PBT_', 'RC_'))}
        e.update(RC_PARAMS='seed=1', PBT_KNOWN=KNOWN, PBT_DICT=self.d + '/dict', PBT_TIER=self.tier, LC_ALL='C',
                 ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=0',
                 UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', TSAN_OPTIONS='exitcode=99:halt_on_error=1')
        e.update(kw)
        return e

    def build_extra(self):
        pass

    # ---- replay ----
    def replay_once(self, driver, path):
        if driver == 'fuzz':
            rc, out = sh([self.d + '/fuzz'], env=self.env(PBT_REPLAY=path), timeout=300, cwd=self.d)
        else:
            rc, out = sh([self.d + '/' + driver, 'replay', path], env=self.env(), timeout=300, cwd=self.d)
        return rc, out

    def fails(self, driver, sub, v):
        p = '%s/try-%d' % (self.d, threading.get_ident())
        with open(p, 'w') as f:
            f.write('property %s\nmode case\nsub %s\nv %s\n' % (self.pid, sub, ' '.join(map(str, v))))
        rc, out = self.replay_once(driver, p)
        return rc not in (0, 3, 4, 'timeout'), out

    def shape(self, sub):
        if not hasattr(self, '_shapes'):
            rc, out = sh([self.d + '/rc', 'shapes'], env=self.env())
            self._shapes = {}
            for l in out.splitlines():
                p = l.split()
                if len(p) >= 3 and p[0] == 'shape':
                    self._shapes[p[1]] = (int(p[2]), int(p[3]))
        return self._shapes.get(sub, (0, 0))

    def shrink(self, driver, sub, v, budget=400):
        """Greedy minimisation by replays in fresh processes (used for crashes and fuzzer findings)."""
        nh, w = self.shape(sub)
        n = 0

        def test(c):
            nonlocal n
            n += 1
            return self.fails(driver, sub, c)[0]

        if w:
            size = max(1, (len(v) - nh) // w)
            while size >= 1 and n < budget:
                i = 0
                while n < budget:
                    k = (len(v) - nh) // w
                    if i >= k:
                        break
                    c = v[:nh + i * w] + v[nh + min(k, i + size) * w:]
                    if len(c) < len(v) and test(c):
                        v = c
                    else:
                        i += size
                size //= 2
        changed = True
        while changed and n < budget:
            changed = False
            for i in range(len(v)):
                x = v[i]
                cand = [0]
                step = x
                while abs(step) > 1:
                    step = int(step / 2) if abs(step) < 2 ** 52 else (abs(step) // 2) * (1 if step > 0 else -1)
                    cand.append(x - step)
                cand.append(x - (1 if x > 0 else -1))
                for y in cand:
                    if n >= budget:
                        break
                    if abs(y) < abs(x) or (y == 0 and x != 0):
                        c = v[:i] + [y] + v[i + 1:]
                        if test(c):
                            v = c
                            changed = True
                            break
        return v

    # ---- jobs ----
    def job(self, j):
        if self.fail or time.time() > self.deadline:
            with self.lock:
                self.notes.append('job %s not started' % j['name'])
            return
        shm = '%s/shm-%s' % (self.d, j['name'])
        failf = '%s/fail-%s' % (self.d, j['name'])
        logf = '%s/log-%s' % (self.d, j['name'])
        stats = '%s/stats-%s' % (self.d, j['name'])
        hashes = '%s/hashes-%s' % (self.d, j['name'])
        j.update(shm=shm, failf=failf, stats=stats, hashes=hashes, logf=logf)
        if j['driver'] == 'fuzz':
            own = '%s/corpus-%s' % (self.d, j['name'])
            os.makedirs(own)
            cmd = [self.d + '/fuzz', own] + ([self.d + '/seeds'] if j['seeds'] else []) + [
                '-seed=%d' % j['seed'], '-runs=%d' % j['runs'], '-max_len=%d' % j['max_len'], '-use_value_profile=1',
                '-len_control=20', '-timeout=600', '-rss_limit_mb=6000', '-detect_leaks=0', '-print_final_stats=1', '-verbosity=0',
                '-error_exitcode=98', '-timeout_exitcode=97', '-artifact_prefix=%s/art-%s-' % (self.d, j['name'])]
            env = self.env(PBT_SHM=shm, PBT_FAIL=failf, PBT_STATS=stats, PBT_HASHES=hashes)
        else:
            cmd = [self.d + '/' + j['driver'], 'gen', '--seed', str(self.seed), '--shard', str(j['shard']), '--nshards', str(j['nshards']),
                   '--cases', str(j['cases']), '--tier', self.tier, '--shm', shm, '--fail', failf, '--stats', stats, '--hashes', hashes]
            if j.get('only'):
                cmd += ['--only', j['only']]
            env = self.env()
        j['cmd'] = cmd
        t0 = time.time()
        with open(logf, 'wb') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=self.d)
            with self.lock:
                self.procs.add(p)
            while True:
                try:
                    rc = p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    if self.fail or time.time() > self.deadline:
                        p.kill()
                        p.wait()
                        rc = 'stopped'
                        break
            with self.lock:
                self.procs.discard(p)
        j['rc'], j['wall'] = rc, round(time.time() - t0, 1)
        if rc == 'stopped':
            with self.lock:
                self.notes.append('job %s stopped early' % j['name'])
        elif rc != 0:
            with self.lock:
                if not self.fail:
                    self.fail = j

    def jobs(self):
        c, t = self.cfg, self.tier
        js = []
        n = c['rc_' + t]
        for k in range(NPROC):
            js.append(dict(name='rc%d' % k, driver='rc', shard=k, nshards=NPROC, cases=n // NPROC))
        nf = c['fuzz_' + t]
        w = c['fuzz_workers_' + t]
        for k in range(w if nf else 0):
            js.append(dict(name='fuzz%d' % k, driver='fuzz', seed=(self.seed * 1000 + k * 17 + 1) % (2 ** 31 - 1) + 1, runs=nf // w,
                           max_len=c['max_len'], seeds=(k % 4 != 3)))
        return js

    def run(self):
        os.makedirs(self.d + '/seeds')
        self.ndict = mine_dictionary(self.d + '/dict')
        fuzz = bool(self.cfg['fuzz_' + self.tier])
        t0 = time.time()
        Build(self.pid, self.d).all(fuzz=fuzz)
        self.build_extra()
        self.build_s = time.time() - t0
        rc, out = sh([self.d + '/rc', 'info'], env=self.env())
        self.subs = [l.split()[0] for l in out.splitlines() if len(l.split()) == 3]
        if fuzz:
            sh([self.d + '/rc', 'gen', '--seed', str(self.seed), '--corpus', self.d + '/seeds', '--ncorpus', str(self.cfg['ncorpus'])], env=self.env())
        js = self.jobs()
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(self.job, js))
        self.js = js
        if self.fail:
            return self.diagnose(self.fail)
        return None

    # ---- failures ----
    def diagnose(self, j):
        """Turns a failed job into a confirmed replay file, or None if it does not reproduce."""
        out = open(j['logf'], errors='replace').read()[-3000:]
        sub, v = None, None
        if os.path.exists(j['failf']):
            for l in open(j['failf'], errors='replace'):
                if l.startswith('sub '):
                    sub = l.split()[1]
                elif l.startswith('v'):
                    v = [int(x) for x in l.split()[1:]]
            kind = 'oracle'
        else:
            ev, nt, case = read_shm(j['shm'], self.subs)
            kind = 'crash'
            if case:
                sub, v = case
        os.makedirs(HERE + '/replays', exist_ok=True)
        path = '%s/replays/%s-%s-%d.case' % (HERE, self.pid, self.tier, self.seed)
        log('job %s ended with %s (%s); last output:\n%s' % (j['name'], j['rc'], kind, out[-1500:]))
        if v is not None:
            for driver in ([j['driver'], 'rc', 'fuzz'] if self.cfg['fuzz_' + self.tier] else [j['driver'], 'rc']):
                bad, _ = self.fails(driver, sub, v)
                if not bad:
                    continue
                if not (kind == 'oracle' and j['driver'] != 'fuzz'):
                    v = self.shrink(driver, sub, v)
                res = [self.fails(driver, sub, v) for _ in range(3)]
                if all(r[0] for r in res):
                    why = [l for l in res[0][1].splitlines() if re.search(r'reason:|ERROR|runtime error|terminate|Assert|HANG|what\(\)', l)][:3]
                    with open(path, 'w') as f:
                        f.write('property %s\nmode case\ndriver %s\nsub %s\nv %s\n' % (self.pid, driver, sub, ' '.join(map(str, v))))
                        for l in res[0][1].splitlines()[-40:]:
                            f.write('# %s\n' % l)
                    return path, '%s %s: %s' % (sub, v, ' | '.join(why))
        # Depends on what was evaluated before: the reproducible unit is the whole (deterministic) run.
        if j['rc'] in (-9, 3) and v is None:
            raise RuntimeError('job %s was ended or could not run: %s' % (j['name'], out[-500:]))
        again = 0
        for k in range(2):
            for f in (j['failf'], j['shm']):
                if os.path.exists(f):
                    os.unlink(f)
            if j['driver'] == 'fuzz':
                shutil.rmtree('%s/corpus-%s' % (self.d, j['name']), ignore_errors=True)
                os.makedirs('%s/corpus-%s' % (self.d, j['name']))
                env = self.env(PBT_SHM=j['shm'], PBT_FAIL=j['failf'])
            else:
                env = self.env()
            rc, o2 = sh(j['cmd'], env=env, timeout=1200, cwd=self.d)
            if rc not in (0, 'timeout', -9, 3):
                again += 1
        if again == 2:
            path = '%s/replays/%s-%s-%d.run' % (HERE, self.pid, self.tier, self.seed)
            with open(path, 'w') as f:
                f.write('property %s\nmode run\ndriver %s\n' % (self.pid, j['driver']))
                f.write('json %s\n' % json.dumps({k: j[k] for k in j if k in ('name', 'driver', 'shard', 'nshards', 'cases', 'seed', 'runs', 'max_len', 'seeds', 'only')}))
                f.write('tier %s\nverifseed %d\n# last failing case: %s %s (fails only after the preceding cases of the run)\n' % (self.tier, self.seed, sub, v))
                for l in out.splitlines()[-40:]:
                    f.write('# %s\n' % l)
            return path, 'whole run of job %s' % j['name']
        self.notes.append('unreproduced failure of job %s: %s' % (j['name'], out[-300:]))
        log('failure did not reproduce')
        return None

    # ---- evidence ----
    def evidence(self, wall, violations):
        subs, samples = {}, []
        ev = nt_raw = enum_nt = enum = 0
        for j in self.js:
            if 'stats' not in j:
                continue
            e0, n0, _ = read_shm(j['shm'], self.subs)
            s = None
            if os.path.exists(j['stats']):
                try:
                    s = json.load(open(j['stats']))
                except ValueError:
                    s = None
            if s is None:
                ev += e0
                nt_raw += n0
                continue
            for name, x in s['subs'].items():
                q = subs.setdefault(name, dict(rule=x['rule'], evaluations=0, nontrivial=0, enumerated=0, skipped=0, labels={}, samples=[]))
                for k in ('evaluations', 'nontrivial', 'enumerated', 'skipped'):
                    q[k] += x[k]
                ev += x['evaluations']
                nt_raw += x['nontrivial']
                if j['driver'] != 'fuzz':
                    enum_nt += x['enum_nontrivial']
                    enum += x['enumerated']
                for l, c in x['labels'].items():
                    q['labels'][l] = q['labels'].get(l, 0) + c
                if len(q['samples']) < 3:
                    q['samples'] += x['samples'][:1]
        for q in subs.values():
            samples += q['samples'][:2]
        hf = [j['hashes'] for j in self.js if 'hashes' in j and os.path.exists(j['hashes'])]
        rc, out = sh([self.d + '/rc', 'merge'] + hf) if hf else (0, '0 0')
        plain, tagged = [int(x) for x in out.split()[-2:]] if rc == 0 else (0, 0)
        distinct = plain + max(enum_nt, tagged)
        rule = ('Cases are integer vectors: rapidcheck generators (uniform, log-scale, boundary, multiples, interesting values and literals of the '
                'code), complete enumerations, and libFuzzer mutations of them. Non-trivial, by sub-check: '
                + '; '.join('%s: %s' % (n, q['rule']) for n, q in subs.items())
                + '. Distinct: distinct hashes of generated non-trivial cases (bounded per process); in sub-checks that also enumerate, the '
                  'larger of these and the enumerated ones. A lower bound.')
        self.known_seen = sorted({l for q in subs.values() for l in q['labels'] if l.startswith('K-')})
        fz = [j for j in self.js if j['driver'] == 'fuzz' and 'rc' in j]
        cov = dict(evaluations=ev, distinct_nontrivial=distinct, rule=rule, samples=samples[:40], nontrivial_evaluations=nt_raw,
                   enumerated=enum, sub_checks=subs,
                   jobs=dict(wall_s={j['name']: j.get('wall') for j in self.js if 'wall' in j}, total=len(self.js), finished=sum(1 for j in self.js if j.get('rc') == 0), fuzz=len(fz)),
                   dictionary=self.ndict, notes=self.notes, build_s=round(self.build_s, 1), known_findings_met=self.known_seen)
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                 assumptions=self.cfg.get('assumptions', DEFAULTS['assumptions']), wall_s=round(wall, 1), violations=violations)
        os.makedirs(HERE + '/evidence', exist_ok=True)
        p = '%s/evidence/%s.json' % (HERE, self.pid)
        with open(p + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.rename(p + '.tmp', p)


def known_lines(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


HEADERS = ['dtfund.hpp', 'dtcalendar.hpp', 'datetime_read.hpp', 'datetime_write.hpp', 'gnsstm.hpp']


def repo_builds(d):
    with open(d + '/headers.cpp', 'w') as f:
        f.write(''.join('#include "%s"\n' % h for h in HEADERS) + 'int main() {}\n')
    b = Build('', d)
    try:
        b._run([['g++', '-std=c++17', '-w', '-DDEBUG', '-I' + SRC, '-c', s, '-o', '%s/own%d.o' % (d, i)] for i, s in enumerate(lib_sources() + [d + '/headers.cpp'])])
        b._run([['g++', '-o', d + '/own'] + ['%s/own%d.o' % (d, i) for i in range(len(lib_sources()) + 1)]])
    except BuildError:
        return False
    return True


def build_violation(r, e):
    """The repository builds but documented calls, which the harness makes, do not."""
    if not re.search(r'error: |undefined reference|multiple definition', str(e)) or not repo_builds(r.d):
        return None
    os.makedirs(HERE + '/replays', exist_ok=True)
    path = '%s/replays/%s-%s-%d.build' % (HERE, r.pid, r.tier, r.seed)
    with open(path, 'w') as f:
        f.write('property %s\nmode build\n' % r.pid)
        for l in str(e).splitlines()[:60]:
            f.write('# %s\n' % l)
    return path, 'documented calls do not compile: ' + ' | '.join(l for l in str(e).splitlines() if re.search(r'error: |undefined|multiple', l))[:600]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = dict(DEFAULTS, **CONFIG.get(pid, {}))
    cls = Runner
    if cfg.get('runner'):
        import special
        cls = getattr(special, cfg['runner'])
    t0 = time.time()
    r = cls(pid, tier, seed)
    try:
        bad = r.run()
        r.evidence(time.time() - t0, 1 if bad else 0)
    except BuildError as e:
        log('the code under test or the harness does not build:\n%s' % e)
        bad = build_violation(r, e)
        if not bad:
            return 2
        r.js, r.subs, r.build_s = [], [], 0
        print('counterexample: %s' % bad[1])
        print('VIOLATION property=%s replay=%s' % (pid, bad[0]))
        return 1
    finally:
        for p in list(r.procs):
            p.kill()
        if not os.environ.get('PBT_KEEP'):
            shutil.rmtree(r.d, ignore_errors=True)
    for k, text in known_lines(pid).items():
        if k in r.known_seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if bad:
        path, why = bad
        print('counterexample: %s' % why)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    c = json.load(open('%s/evidence/%s.json' % (HERE, pid)))['coverage']
    print('%s %s seed=%d: held on %d evaluations, %d distinct non-trivial, %.0f s%s' % (
        pid, tier, seed, c['evaluations'], c['distinct_nontrivial'], time.time() - t0, (' notes: %s' % r.notes) if r.notes else ''))
    return 0


def do_replay(path):
    info = {}
    for l in open(path, errors='replace'):
        k, _, v = l.strip().partition(' ')
        info.setdefault(k, v)
    pid = info['property']
    cfg = dict(DEFAULTS, **CONFIG.get(pid, {}))
    cls = Runner
    if cfg.get('runner'):
        import special
        cls = getattr(special, cfg['runner'])
    r = cls(pid, info.get('tier', 'quick'), int(info.get('verifseed', '1')))
    try:
        return r.replay(path, info)
    except BuildError as e:
        print(e)
        print('FAILED' if repo_builds(r.d) else 'does not build')
        return 1
    finally:
        if not os.environ.get('PBT_KEEP'):
            shutil.rmtree(r.d, ignore_errors=True)


def _replay(self, path, info):
    mine_dictionary(self.d + '/dict')
    os.makedirs(self.d + '/seeds', exist_ok=True)
    Build(self.pid, self.d).all(fuzz=True)
    self.build_extra()
    rc, out = sh([self.d + '/rc', 'info'], env=self.env())
    self.subs = [l.split()[0] for l in out.splitlines() if len(l.split()) == 3]
    if info['mode'] == 'case':
        rc, out = self.replay_once(info.get('driver', 'rc'), os.path.abspath(path))
        print(out)
        bad = rc not in (0, 3, 4)
    elif info['mode'] == 'build':
        bad = False
    else:
        j = json.loads(info['json'])
        sh([self.d + '/rc', 'gen', '--seed', str(self.seed), '--corpus', self.d + '/seeds', '--ncorpus', str(self.cfg['ncorpus'])], env=self.env())
        self.job(j)
        print(open(j['logf'], errors='replace').read()[-3000:])
        bad = j['rc'] not in (0, 'stopped')
    print('FAILED' if bad else 'HELD')
    return 1 if bad else 0


Runner.replay = _replay

if __name__ == '__main__':
    sys.exit(main())
