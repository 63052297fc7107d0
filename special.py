"""Runners of the properties that need more than the two standard drivers."""
import os
from concurrent.futures import ThreadPoolExecutor
from check import Build, BuildError, Runner, SRC, H, NPROC, lib_sources, sh, log
import check


class ThreadRunner(Runner):
    """C23: adds a build with the thread sanitizer that runs the sub-check 'threads' only."""

    def build_extra(self):
        d = self.d
        t = ['g++', '-std=c++17', '-g1', '-O1', '-w', '-I' + SRC, '-fsanitize=thread']
        cmds, objs = [], []
        for s, o in [(os.path.join(H, 'rc_main.cpp'), 'rc_main_t.o'), (os.path.join(H, 'props', self.pid + '.cpp'), 'prop_t.o')] + [
                (s, 'lib_%s_t.o' % os.path.splitext(os.path.basename(s))[0]) for s in lib_sources()]:
            cmds.append(t + ['-c', s, '-o', d + '/' + o])
            objs.append(d + '/' + o)
        b = Build(self.pid, d)
        b._run(cmds)
        b._run([t + ['-o', d + '/tsan'] + objs + ['-lrapidcheck', '-lpthread']])

    def jobs(self):
        n = self.cfg['tsan_' + self.tier]
        k = self.cfg['tsan_workers']
        return [dict(name='tsan%d' % i, driver='tsan', only='threads', shard=100 + i, nshards=NPROC, cases=n // k) for i in range(k)] + Runner.jobs(self)


CONFIGS = [  # compiler, flags, argument checks enabled
    ('g++', ['-O0', '-DDEBUG'], 0),
    ('g++', ['-O2', '-DNDEBUG'], 0),
    ('g++', ['-O3', '-DDEBUG'], 0),
    ('g++', ['-Os'], 0),
    ('clang++', ['-O0'], 0),
    ('clang++', ['-O2', '-DNDEBUG'], 0),
    ('clang++', ['-O3', '-DDEBUG'], 0),
    ('g++', ['-O2', '-DUSE_DATETIME_CHECKS', '-DDEBUG'], 1),
    ('clang++', ['-O1', '-DUSE_DATETIME_CHECKS'], 1),
    ('g++', ['-O2', '-march=native', '-W', '-Wall'], 0),          # Makefile.am.production
    ('g++', ['-O2', '-std=c++20', '-funsigned-char', '-DDEBUG', '-DNDEBUG'], 0),
    ('clang++', ['-O2', '-std=c++20', '-march=native', '-ffp-contract=fast'], 0),
    ('g++', ['-Og', '-std=gnu++23', '-D_GLIBCXX_DEBUG'], 0),
    ('clang++', ['-Os', '-std=c++2c', '-funsigned-char', '-fno-builtin', '-DDEBUG'], 0),
    ('g++', ['-O3', '-std=c++2b', '-DUSE_DATETIME_CHECKS', '-fno-strict-aliasing'], 1),
]


class ConfigError(Exception):
    """One of the configurations does not build although the standard one does."""


class ConfigRunner(Runner):
    """C24: the call table and the library, built once per configuration as a shared object."""

    def run(self):
        try:
            try:
                return Runner.run(self)
            except BuildError as e:     # a violation if the repository's own configuration builds
                Build(self.pid, self.d).all(fuzz=False)
                raise ConfigError(str(e))
        except ConfigError as e:
            self.js, self.subs, self.build_s = [], [], 0
            os.makedirs(check.HERE + '/replays', exist_ok=True)
            path = '%s/replays/%s-%s-%d.build' % (check.HERE, self.pid, self.tier, self.seed)
            with open(path, 'w') as f:
                f.write('property %s\nmode build\n' % self.pid)
                for l in str(e).splitlines()[:60]:
                    f.write('# %s\n' % l)
            return path, 'does not build: ' + ' | '.join(l for l in str(e).splitlines() if 'error' in l or '-std=' in l)[:600]

    def replay(self, path, info):
        if info['mode'] != 'build':
            return Runner.replay(self, path, info)
        try:
            Build(self.pid, self.d).all(fuzz=False)
            try:
                Build(self.pid, self.d).all(fuzz=True)
            except BuildError as e:
                raise ConfigError(str(e))
            self.build_extra()
        except ConfigError as e:
            print(str(e)[:3000])
            print('FAILED')
            return 1
        print('HELD')
        return 0

    def build_extra(self):
        d = self.d
        cmds, links, lines = [], [], []
        for i, (cc, flags, checks) in enumerate(CONFIGS):
            base = [cc, '-std=c++17', '-w', '-fPIC', '-fvisibility=hidden', '-I' + SRC, '-I' + H] + (['-fno-gnu-unique'] if cc == 'g++' else []) + flags
            objs = []
            for s in [os.path.join(H, 'calls_so.cpp')] + lib_sources():
                o = '%s/conf%d_%s.o' % (d, i, os.path.splitext(os.path.basename(s))[0])
                cmds.append(base + ['-c', s, '-o', o])
                objs.append(o)
            so = 'conf%d.so' % i
            links.append([cc, '-shared', '-Wl,-Bsymbolic', '-o', d + '/' + so] + objs)
            lines.append('%s %d %s %s\n' % (so, checks, cc, ' '.join(flags)))
        b = Build(self.pid, d)
        cmds.sort(key=lambda c: 'calls_so' not in ' '.join(c))
        try:
            b._run(cmds)
            b._run(links)
        except BuildError as e:     # the standard builds succeeded before
            raise ConfigError(str(e))
        with open(d + '/configs', 'w') as f:
            f.writelines(lines)


LOCALES = ['de_DE.UTF-8', 'fr_FR.UTF-8', 'tr_TR.UTF-8', 'tr_TR.ISO-8859-9', 'en_US.UTF-8', 'hi_IN.UTF-8', 'de_DE.ISO-8859-1', 'ps_AF.UTF-8', 'lt_LT.ISO-8859-13', 'ru_RU.KOI8-R', 'ja_JP.EUC-JP']


class LocaleRunner(Runner):
    """C26: C locales, compiled into the build directory from the sources of the C library."""

    def env(self, **kw):
        return Runner.env(self, LOCPATH=self.d + '/locales', LC_ALL='de_DE.UTF-8', **kw)

    def build_extra(self):
        os.makedirs(self.d + '/locales', exist_ok=True)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda n: sh(['localedef', '-i', n.split('.')[0], '-f', n.split('.')[1], '%s/locales/%s' % (self.d, n)], timeout=300), LOCALES))
        have = [n for n in LOCALES if os.path.isdir('%s/locales/%s' % (self.d, n))]
        if len(have) < len(LOCALES):
            self.notes.append('locales that could not be compiled: %s' % sorted(set(LOCALES) - set(have)))


from c22 import CompileRunner  # noqa: E402,F401
from c25 import ProgramRunner  # noqa: E402,F401
from c30 import ConstRunner  # noqa: E402,F401
