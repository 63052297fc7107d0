"""C30: constant expressions. Every function that is usable in them, over generated arguments, evaluated by the compilers and again at run time."""
import itertools, json, os, random, re, time
from concurrent.futures import ThreadPoolExecutor
from check import BuildError, Runner, SRC, H, HERE, NPROC, lib_sources, mine_dictionary, sh, log

NF = int(re.search(r'constexpr int NF = (\d+)', open(H + '/cx.hpp').read()).group(1))
CONFIGS = [
    ('g++', ['-std=c++17', '-O2']),
    ('clang++', ['-std=c++17', '-O1', '-DDEBUG']),
    ('g++', ['-std=c++20', '-O0', '-DDEBUG']),
    ('clang++', ['-std=c++20', '-O2', '-DNDEBUG']),
    ('g++', ['-std=c++17', '-O1', '-DUSE_DATETIME_CHECKS']),
    ('clang++', ['-std=c++17', '-O0', '-DUSE_DATETIME_CHECKS', '-DDEBUG']),
]
LIMITS = {'g++': ['-fconstexpr-ops-limit=4000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-cache-depth=8'], 'clang++': ['-fconstexpr-steps=1000000000']}
I64 = 2 ** 63 - 1
SPECIAL = [0, 1, 2, 3, 4, 100, 400, 1900, 2000, 999, 1000, 3600, 86399, 86400, 86401, 604800, 86399999, 86400000, 86399999999, 86400000000, 86400000001, 604800000000, 172800000000, 43200000000, 51544, 44244, 365, 366, 59, 60, 61, 24, 2147483647, I64, -I64]

TEXT = '''#include <cstdio>
#include "cx.hpp"
constexpr cx::In in[] = {%s};
constexpr int n = sizeof in / sizeof in[0];
constexpr auto table = cx::table<%d>(in);
cx::In copy[n];
int main() {
  for (int k = 0; k < n; ++k) {     // arguments the compiler does not know
    const volatile cx::In* const p = in + k;
    copy[k].res = p->res;
    for (int j = 0; j < 8; ++j) copy[k].a[j] = p->a[j];
  }
  cx::In* volatile args = copy;
  for (int k = 0; k < n; ++k) {
    const cx::Out o = cx::call<%d>(args[k]);
    const cx::Out& c = table.r[k];
    if (o.n != c.n || o.nd != c.nd) { std::printf("%%d a different number of results\\n", k); continue; }
    for (int j = 0; j < o.n; ++j) if (o.v[j] != c.v[j]) { std::printf("%%d result %%d is %%ld in a constant expression and %%ld at run time\\n", k, j, c.v[j], o.v[j]); break; }
    for (int j = 0; j < o.nd; ++j) {
      double x = c.d[j];
      for (int u = 0; u < 2 && x != o.d[j]; ++u) x = std::nextafter(x, o.d[j]);
      if (x != o.d[j]) { std::printf("%%d number %%d is %%.17g in a constant expression and %%.17g at run time\\n", k, j, c.d[j], o.d[j]); break; }
    }
  }
  std::puts("end");
}
'''


def gen_value(rng, words):
    k = rng.randrange(10)
    if k < 2:
        x = rng.choice(SPECIAL)
    elif k < 3:
        x = rng.choice(words) if words else 0
    elif k < 4:
        x = rng.choice(SPECIAL) * rng.choice([1, 2, 7, 365, 1000, 36525, 1000000, 1000003])
    elif k < 5:
        x = rng.randrange(-100, 100)
    elif k < 6:
        x = rng.randrange(-I64, I64)
    else:
        x = rng.randrange(1 << rng.randrange(1, 63)) * rng.choice([1, 1, -1])
    return max(-I64, min(I64, x + (rng.randrange(-3, 4) if k < 4 else 0)))


class ConstRunner(Runner):
    counter = itertools.count()

    def cc(self, i):
        c, fl = CONFIGS[i]
        return [c, '-w', '-I' + SRC, '-I' + H] + LIMITS[c] + fl

    # (compiles, output of the program or of the compiler)
    def evaluate(self, i, fn, cases):
        b = '%s/c%d' % (self.d, next(self.counter))
        with open(b + '.cpp', 'w') as f:
            f.write(TEXT % (',\n'.join('{%d, {%s}}' % (c[0], ', '.join('%dL' % x for x in c[1:])) for c in cases), fn, fn))
        try:
            rc, out = sh(self.cc(i) + ['-o', b, b + '.cpp'], env=self.env(), timeout=300)
            if rc == 'timeout' or (isinstance(rc, int) and rc < 0) or (rc != 0 and re.search(r'Killed|internal compiler error|out of memory', out)):
                raise RuntimeError('compiler ended with %s: %s' % (rc, out[-400:]))
            if rc != 0:
                return False, out
            rc, out = sh([b], env=self.env(), timeout=120)
            if rc != 0 or not out.endswith('end\n'):
                out = '0 the program ended with %s: %s\n' % (rc, out[-300:])
            return True, out
        finally:
            for x in (b, b + '.cpp'):
                if os.path.exists(x):
                    os.unlink(x)

    def bad_lines(self, out):
        return [(int(l.split()[0]), l.partition(' ')[2]) for l in out.splitlines() if re.match(r'\d+ ', l)]

    # why a case fails, or None
    def judge(self, i, fn, case):
        ok, out = self.evaluate(i, fn, [case])
        if not ok:
            return 'not a constant expression: ' + ' | '.join(l for l in out.splitlines() if 'error' in l or 'note: ' in l)[:500]
        b = self.bad_lines(out)
        return b[0][1] if b else None

    def case_fails(self, i, fn, cases):
        """Indices of failing cases among many, by compiling all, or halves when that is not possible."""
        ok, out = self.evaluate(i, fn, cases)
        if ok:
            return [k for k, _ in self.bad_lines(out)]
        if len(cases) == 1:
            return [0]
        h = len(cases) // 2
        r = self.case_fails(i, fn, cases[:h])
        return r or [k + h for k in self.case_fails(i, fn, cases[h:])]

    def shrink(self, i, fn, c):
        for _ in range(12):
            cand = []
            for j in range(9):
                x = c[j]
                for y in [0, 1] + [x - int(x / 2 ** k) for k in range(1, 63) if abs(x) >> k] + [x - (x > 0) + (x < 0)]:
                    if abs(y) < abs(x):
                        cand.append(c[:j] + [y] + c[j + 1:])
            if not cand:
                break
            ok, out = self.evaluate(i, fn, cand)
            if ok:
                good = [k for k, _ in self.bad_lines(out)]
            else:     # some are no constant expressions
                good = [k for k, b in enumerate(self.pmap(lambda d: self.judge(i, fn, d), cand)) if b]
            if not good:
                break
            c = min((cand[k] for k in good), key=lambda d: sum(abs(x).bit_length() for x in d))
        return c

    def pmap(self, f, xs):
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(f, xs))

    def violation(self, i, fn, case):
        if not all(self.judge(i, fn, case) for _ in range(2)):
            self.notes.append('did not reproduce: %s %s %s' % (i, fn, case))
            return None
        case = self.shrink(i, fn, case)
        why = self.judge(i, fn, case)
        os.makedirs(HERE + '/replays', exist_ok=True)
        path = '%s/replays/%s-%s-%d.case' % (HERE, self.pid, self.tier, self.seed)
        with open(path, 'w') as f:
            f.write('property %s\nmode const\njson %s\n# %s\n# %s: %s\n' % (self.pid, json.dumps([i, fn, case]), '%s %s' % (CONFIGS[i][0], ' '.join(CONFIGS[i][1])), 'function %d of harness/cx.hpp' % fn, why))
        return path, '%s %s: function %d of harness/cx.hpp, resolution and arguments %s: %s' % (CONFIGS[i][0], ' '.join(CONFIGS[i][1]), fn, case, why)

    def run(self):
        self.js, self.subs, self.known_seen = [], [], []
        self.samples, self.skipped, self.done, self.distinct = [], [], {}, set()
        t0 = time.time()
        self.ndict = mine_dictionary(self.d + '/dict')
        words = [int(l) for l in open(self.d + '/dict')]
        rng = random.Random(self.seed)
        rc, out = sh(self.cc(0) + ['-fsyntax-only', H + '/cx.hpp'])
        if rc != 0:
            raise BuildError(out)
        self.build_s = time.time() - t0
        # can it be evaluated at all?
        probe = [[r] + [x * 3 for x in range(1, 8)] + [0] for r in range(3)]
        pairs = [(i, fn) for fn in range(NF) for i in range(len(CONFIGS))]
        usable = []
        for (i, fn), ok in zip(pairs, self.pmap(lambda p: any(self.evaluate(p[0], p[1], [c])[0] for c in probe), pairs)):
            if ok:
                usable.append((i, fn))
            else:
                self.skipped.append('%d with %s %s' % (fn, CONFIGS[i][0], ' '.join(CONFIGS[i][1])))
        if self.skipped:
            self.notes.append('functions that cannot be evaluated in constant expressions at all: %s' % self.skipped)
        total, size = self.cfg['cases_' + self.tier], self.cfg['batch']
        work = []
        while len(work) * size < total:
            for i, fn in usable:
                work.append((i, fn, [[rng.randrange(3)] + [gen_value(rng, words) for _ in range(7)] + [rng.randrange(4)] for _ in range(size)]))
            if not usable:
                break

        def one(w):
            if time.time() > self.deadline or self.fail:
                return None
            ok, out = self.evaluate(*w)
            if not ok or self.bad_lines(out):
                self.fail = w
                return out
            return ''
        bad = None
        for w, r in zip(work, self.pmap(one, work)):
            i, fn, cases = w
            if r is None:
                continue
            if len(self.samples) < 20 and len(self.done) % 3 == 0:
                self.samples.append('function %d, resolution and arguments %s, %s %s' % (fn, cases[0], CONFIGS[i][0], ' '.join(CONFIGS[i][1])))
            self.done[fn] = self.done.get(fn, 0) + len(cases)
            self.distinct.update((fn, tuple(c)) for c in cases if sum(1 for x in c[1:] if x not in (0, 1)) >= 3)
            if r and not bad:
                k = self.case_fails(i, fn, cases)
                if k:
                    bad = self.violation(i, fn, cases[k[0]])
                else:
                    self.notes.append('did not reproduce: %s' % r[:300])
        return bad

    def evidence(self, wall, violations):
        cov = dict(evaluations=sum(self.done.values()), distinct_nontrivial=len(self.distinct),
                   rule='A case is a function of harness/cx.hpp, a resolution and eight integers (special values, literals of the code, products, uniform and log-scale numbers), '
                        'evaluated in an array initialised by a constant expression and again at run time with arguments the compiler does not know. Non-trivial: at least three arguments other than 0 and 1; '
                        'distinct over the whole run, although each function is compiled by ' + '; '.join(' '.join([c] + f) for c, f in CONFIGS) + '.',
                   samples=self.samples, functions=self.done, not_usable=self.skipped, notes=self.notes, build_s=round(self.build_s, 1), dictionary=self.ndict, known_findings_met=[])
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov, assumptions=self.cfg['assumptions'], wall_s=round(wall, 1), violations=violations)
        os.makedirs(HERE + '/evidence', exist_ok=True)
        p = '%s/evidence/%s.json' % (HERE, self.pid)
        with open(p + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.rename(p + '.tmp', p)

    def replay(self, path, info):
        if info['mode'] == 'build':
            rc, out = sh(self.cc(0) + ['-fsyntax-only', H + '/cx.hpp'])
            print(out[-2000:])
            print('FAILED' if rc else 'HELD')
            return 1 if rc else 0
        i, fn, case = json.loads(info['json'])
        why = self.judge(i, fn, case)
        print(why or '')
        print('FAILED' if why else 'HELD')
        return 1 if why else 0
