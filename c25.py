"""C25: programs of several source files. Random programs are compiled, linked and run; the oracle computes their output."""
import datetime as pydt, itertools, json, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from check import BuildError, Runner, SRC, HERE, NPROC, lib_sources, sh

HEADERS = ['dtfund.hpp', 'dtcalendar.hpp', 'datetime_read.hpp', 'datetime_write.hpp', 'gnsstm.hpp']
SYSTEM = ['cmath', 'cstdio', 'cstring', 'string', 'iostream', 'sstream', 'limits', 'vector', 'ctime', 'chrono', 'algorithm', 'tuple', 'cassert', 'sys/time.h', 'unistd.h', 'math.h']
MORE = ['locale', 'cstdlib', 'cstdint', 'climits', 'cerrno', 'cctype', 'cwchar', 'stdexcept', 'functional', 'iterator', 'memory', 'utility', 'iomanip', 'array', 'map', 'set', 'type_traits', 'new', 'exception', 'system_error', 'signal.h', 'fcntl.h', 'float.h', 'stddef.h', 'stdint.h']
COMPILERS = ['g++', 'clang++']
FLAGS = [['-O0'], ['-O1'], ['-O2', '-DNDEBUG'], ['-O0', '-DDEBUG'], ['-O2', '-DDEBUG'], ['-O0', '-fno-inline', '-DNDEBUG'], ['-O1', '-fvisibility=hidden'],
         ['-O1', '-std=gnu++17'], ['-O1', '-std=c++20'], ['-O2', '-std=gnu++20', '-DNDEBUG'], ['-O1', '-std=c++2b', '-DDEBUG'], ['-O1', '-funsigned-char', '-D_GLIBCXX_ASSERTIONS'], ['-O1', '-fno-rtti', '-fno-math-errno']]
LIBS = [('g++', ['-O1', '-DDEBUG']), ('clang++', ['-O2', '-DNDEBUG']), ('g++', ['-O0', '-DUSE_DATETIME_CHECKS'])]
FAC = [1, 1000, 1000000]
SEC = ['seconds', 'milliseconds', 'microseconds']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
LEAPS = [(41317, 10), (41499, 11), (41683, 12), (42048, 13), (42413, 14), (42778, 15), (43144, 16), (43509, 17), (43874, 18), (44239, 19), (44786, 20), (45151, 21), (45516, 22), (46247, 23), (47161, 24),
         (47892, 25), (48257, 26), (48804, 27), (49169, 28), (49534, 29), (50083, 30), (50630, 31), (51179, 32), (53736, 33), (54832, 34), (56109, 35), (57204, 36), (57754, 37)]
MJD0 = pydt.date(1858, 11, 17).toordinal()

# names of the library that a program may use for itself outside namespace ngpt
OWN = ['struct year { int v; };', 'struct month { int v; };', 'static int dat(int x) { return x + 1; }', 'struct datetime { };', 'static int seconds = 3;', 'enum hours { one, two };',
       'namespace ddetail { static int read_int = 1; }', 'template<class T> struct datetime_interval { T t; };', 'static const long modified_julian_day = 5;', 'struct ymd_date { };', 'typedef int gps_week;',
       'static int minutes, milliseconds, microseconds;',
       # and names of the standard library: a using directive in a header would make these ambiguous
       'static int distance = 1, count = 2; static int use_names() { return distance + count; }', 'struct string { int n; }; static int use_string(string s) { return s.n; }',
       'struct byte { int v; }; static int use_byte(byte b) { return b.v; }', 'static double fixed = 0; static int hex = 1; static double use_manip() { return fixed + hex; }',
       'struct tuple { }; static tuple use_tuple() { return tuple(); }', 'static int get(int i) { return i; } static int tie = 2; static int use_get() { return get(tie); }']


KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue
co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq
nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw
true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq typeof main linux unix""".split())


def mjd_of(y, m, d):
    return pydt.date(y, m, d).toordinal() - MJD0


def ymd_of(mjd):
    d = pydt.date.fromordinal(mjd + MJD0)
    return d.year, d.month, d.day


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def hmsf(t, r):
    s, f = divmod(t, FAC[r])
    return s // 3600, s // 60 % 60, s % 60, f


# every call: generator of the arguments, C++ statement appending to `o`, expected text. `h`: header that declares it
def c_cal(a):
    y, m, d = a
    try:
        w = str(mjd_of(y, m, d))
    except ValueError:
        w = 'E'
    return 'I(cal2mjd(year(%d), month(%d), day_of_month(%d)).as_underlying_type());' % a, w


def c_ydoy(a):
    y, n = a
    return 'I(ydoy2mjd(year(%d), day_of_year(%d)).as_underlying_type());' % a, str(mjd_of(y, 1, 1) + n - 1)


def c_ymd(a):
    return '{ auto x = modified_julian_day(%d).to_ymd(); I(x.__year.as_underlying_type()); I(x.__month.as_underlying_type()); I(x.__dom.as_underlying_type()); }' % a, '%d,%d,%d' % ymd_of(a[0])


def c_doy(a):
    y = ymd_of(a[0])[0]
    return '{ auto x = modified_julian_day(%d).to_ydoy(); I(x.__year.as_underlying_type()); I(x.__doy.as_underlying_type()); }' % a, '%d,%d' % (y, a[0] - mjd_of(y, 1, 1) + 1)


def c_leap(a):
    y, m, d = a
    try:
        mjd_of(y, m, d)
        v = 1
    except ValueError:
        v = 0
    return 'I(year(%d).is_leap()); I(day_of_month(%d).is_valid(year(%d), month(%d)));' % (y, d, y, m), '%d,%d' % (leap(y), v)


def c_dat(a):
    return 'I(dat(modified_julian_day(%d)));' % a, str([n for j, n in LEAPS if j <= a[0]][-1])


def c_month(a):
    m, = a
    return 'o += month(%d).short_name(); o += month(%d).long_name(); I(month("%s").as_underlying_type());' % (m, m, MONTHS[m - 1][:3].lower()), '%s%s%d' % (MONTHS[m - 1][:3], MONTHS[m - 1], m)


def c_split(a):
    r, t = a
    return ('{ auto x = %s(%dL).to_hmsf(); I(std::get<0>(x).as_underlying_type()); I(std::get<1>(x).as_underlying_type()); I(std::get<2>(x).as_underlying_type()); I(std::get<3>(x)); }' % (SEC[r], t), '%d,%d,%d,%d' % hmsf(t, r))


def c_unit(a):
    r, q, t = a
    w = t * FAC[q] // FAC[r]
    return 'I(cast_to<%s, %s>(%s(%dL)).as_underlying_type());' % (SEC[r], SEC[q], SEC[r], t), str(w)


def c_make(a):
    r, y, m, d, h, n, s = a
    t = (h * 3600 + n * 60) * FAC[r] + s
    j = mjd_of(y, m, d) + t // (86400 * FAC[r])
    return ('{ datetime<%s> x(year(%d), month(%d), day_of_month(%d), hours(%d), minutes(%d), %s(%dL)); I(x.mjd().as_underlying_type()); I(x.sec().as_underlying_type()); }' % (SEC[r], y, m, d, h, n, SEC[r], s),
            '%d,%d' % (j, t % (86400 * FAC[r])))


def dt(r, j, t):
    return 'datetime<%s>(modified_julian_day(%d), %s(%dL))' % (SEC[r], j, SEC[r], t)


def c_add(a):
    r, q, j, t, s = a
    x = t * FAC[2] // FAC[r] + s * FAC[2] // FAC[q]
    x = x * FAC[r] // FAC[2]
    return '{ auto x = %s; x.add_seconds(%s(%dL)); I(x.mjd().as_underlying_type()); I(x.sec().as_underlying_type()); }' % (dt(r, j, t), SEC[q], s), '%d,%d' % (j + x // (86400 * FAC[r]), x % (86400 * FAC[r]))


def c_diff(a):
    r, j, t, k, s = a
    d = 86400 * FAC[r]
    return 'I(delta_sec(%s, %s).as_underlying_type());' % (dt(r, j, t), dt(r, k, s)), str((j - k) * d + t - s)


def c_cmp(a):
    r, j, t, k, s = a
    return '{ auto x = %s, y = %s; I(x < y); I(x <= y); I(x == y); I(x != y); I(x > y); }' % (dt(r, j, t), dt(r, k, s)), '%d,%d,%d,%d,%d' % ((j, t) < (k, s), (j, t) <= (k, s), (j, t) == (k, s), (j, t) != (k, s), (j, t) > (k, s))


def c_gps(a):
    r, j, t = a
    w, d = divmod(j - 44244, 7)
    return '{ long s; I(%s.as_gps_wsow(s).as_underlying_type()); I(s); }' % dt(r, j, t), '%d,%d' % (w, d * 86400 + t // FAC[r])


def c_str(a):
    r, j, t = a
    y, m, d = ymd_of(j)
    h, n, s, f = hmsf(t, r)
    return 'o += %s.stringify();' % dt(r, j, t), '%d/%d/%d %d:%d:%d.%09d' % (y, m, d, h, n, s, f * 1000000000 // FAC[r])


def c_write(a):
    j, t = a
    y, m, d = ymd_of(j)
    h, n, s, f = hmsf(t, 1)
    w = '%04d-%02d-%02d %02d:%02d:' % (y, m, d, h, n)
    return 'o += strftime_ymd_hms(%s); o += strftime_ymd_hmfs(%s);' % (dt(1, j, t), dt(1, j, t)), w + '%02d' % s + w + '%d.%03d00' % (s, f)


def c_slash(a):
    r, j, t = a
    y, m, d = ymd_of(j)
    return "o += strftime_ymd_hms(%s, '/');" % dt(r, j, t), '%04d/%02d/%02d %02d:%02d:%02d' % ((y, m, d) + hmsf(t, r)[:3])


def c_read(a):
    form, r, j, t = a
    y, m, d = ymd_of(j)
    h, n, s, f = hmsf(t, r)
    secs = '%d%s' % (s, ('', '.%03d', '.%06d')[r] % (f if r else ()))
    doy = j - mjd_of(y, 1, 1) + 1
    if form == 'ymd':
        text, t = '%04d-%02d-%02d' % (y, m, d), 0
    elif form == 'ydoy':
        text, t = '%04d-%03d' % (y, doy), 0
    elif form == 'ymd_hms':
        text = '%04d-%02d-%02d %02d:%02d:%s' % (y, m, d, h, n, secs)
    elif form == 'yod_hms':
        text = '%04d-%s-%02d %02d:%02d:%s' % (y, MONTHS[m - 1][:3], d, h, n, secs)
    else:
        text = '%04d-%03d %02d:%02d:%s' % (y, doy, h, n, secs)
    return '{ auto x = strptime_%s<%s>("%s"); I(x.mjd().as_underlying_type()); I(x.sec().as_underlying_type()); }' % (form, SEC[r], text), '%d,%d' % (j, t)


def c_bad(a):
    k, = a
    return 'I(strptime_ymd<seconds>("%s").mjd().as_underlying_type());' % ['abc', '2015', '', '2015-02-30', '2015-13-01'][k], 'E'


CONSTS = [('jan61980', 44244, 1), ('jan11901', 15385, 1), ('sec_per_day', 86400, 1), ('days_in_julian_year', 36525, 100), ('days_in_julian_cent', 36525, 1), ('j2000_jd', 2451545, 1),
          ('j2000_mjd', 515445, 10), ('mjd0_jd', 24000005, 10)]


def c_const(a):
    n, v, k = CONSTS[a[0]]
    return '{ const auto& x = %s; I(x * %d == %d); I(&x == &%s); I(tt_minus_tai == 32.184e0); }' % (n, k, v, n), '1,1,1'


def c_frac(a):
    r, j, k = a
    return 'I(static_cast<long>(%s.as_mjd() * 8e0 + 0.25)); I(static_cast<long>(%s(%dL).fractional_days() * 8e0 + 0.25)); I(modified_julian_day(%d).to_julian_day() == %d.5);' % (
        dt(r, j, k * 10800 * FAC[r]), SEC[r], k * 10800 * FAC[r], j, j + 2400000), '%d,%d,1' % (j * 8 + k, k)


def c_intv(a):
    r, j, t, k, s = a
    d = 86400 * FAC[r]
    x, y = divmod(t + 3 * s, d)
    return '{ datetime_interval<%s> x(modified_julian_day(%d), %s(%dL)), y(modified_julian_day(%d), %s(%dL)); I(x.days().as_underlying_type()); I(x.sec().as_underlying_type()); I(y < x); auto z = %s; z += x; I(z.mjd().as_underlying_type()); I(z.sec().as_underlying_type()); }' % (
        SEC[r], k + 1, SEC[r], t + 3 * s, k, SEC[r], s, dt(r, j, t)), '%d,%d,%d,%d,%d' % (k + 1 + x, y, (k, s) < (k + 1 + x, y), *divmod((j + k + 1) * d + 2 * t + 3 * s, d))


def c_datym(a):
    j, = a
    y, m, _ = ymd_of(j)
    return 'I(dat(year(%d), month(%d))); I(dat(datetime<milliseconds>(modified_julian_day(%d), milliseconds(86399999L))));' % (y, m, j), '%s,%s' % (
        [n for b, n in LEAPS if b <= mjd_of(y, m, 1)][-1], [n for b, n in LEAPS if b <= j][-1])


def c_rest(a):
    j, t = a
    y, m, d = ymd_of(j)
    h, n, s, _ = hmsf(t, 0)
    x = '%04d-%02d-%02d %02d:%02d:%02d' % (y, m, d, h, n, s)
    return '{ const char* t = "%s tail"; char* e = nullptr; auto x = strptime_ymd_hms<seconds>(t, &e); I(x.mjd().as_underlying_type()); I(x.sec().as_underlying_type()); I(e - t); }' % x, '%d,%d,%d' % (j, t, len(x) - 1)


def c_gnss(a):
    i, j = a
    N = ['gps', 'glo', 'gal', 'qzs', 'bdt', 'irn']
    return ('{ GnssTimeSystem x = GnssTimeSystem::%s, y = GnssTimeSystem::%s; I(x == y); switch (x) { case GnssTimeSystem::gps: case GnssTimeSystem::glo: case GnssTimeSystem::gal: case GnssTimeSystem::qzs: '
            'case GnssTimeSystem::bdt: case GnssTimeSystem::irn: I(sizeof x); } }' % (N[i], N[j]), '%d,1' % (i == j))


def R(rng, lo, hi):
    return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi)])


def g_mjd(rng):
    return rng.choice([rng.randint(0, 100000), rng.randint(41317, 60000), rng.randint(0, 2973483), 44244, 51544, 57754, 51603, 51604])


def g_tod(rng, r):
    return R(rng, 0, 86400 * FAC[r] - 1)


def g_ymd(rng):
    return rng.choice([1859, 1900, 1972, 1999, 2000, 2004, 2015, 2016, 2100, 9999, rng.randint(1859, 9999), rng.randint(1859, 9999)]), rng.randint(1, 12), rng.choice([1, 28, 29, 30, 31, rng.randint(1, 31)])


def g_valid(rng):
    return ymd_of(rng.randint(365, 2973483))


CALLS = {   # name: (header, generator, meaning)
    'cal': ('dtfund.hpp', g_ymd, c_cal),
    'ydoy': ('dtfund.hpp', lambda g: (g_ymd(g)[0], R(g, 1, 365)), c_ydoy),
    'ymd': ('dtfund.hpp', lambda g: (g_mjd(g),), c_ymd),
    'doy': ('dtfund.hpp', lambda g: (g_mjd(g),), c_doy),
    'leap': ('dtfund.hpp', g_ymd, c_leap),
    'dat': ('dtfund.hpp', lambda g: (g.choice([g.choice(LEAPS)[0] - g.randint(0, 1), g.randint(41317, 60000)]) if g.random() < .9 else 41317,), lambda a: c_dat((max(a[0], 41317),))),
    'month': ('dtfund.hpp', lambda g: (g.randint(1, 12),), c_month),
    'split': ('dtfund.hpp', lambda g: (lambda r: (r, g_tod(g, r)))(g.randint(0, 2)), c_split),
    'unit': ('dtfund.hpp', lambda g: (g.randint(0, 2), g.randint(0, 2), g.randint(0, 10 ** 12)), c_unit),
    'const': ('dtfund.hpp', lambda g: (g.randint(0, 7),), c_const),
    'datym': ('dtcalendar.hpp', lambda g: (g.choice([g.choice(LEAPS)[0], g.choice(LEAPS[1:])[0] - 1, g.randint(41317, 70000)]),), c_datym),
    'frac': ('dtcalendar.hpp', lambda g: (g.randint(0, 2), g_mjd(g), g.randint(0, 7)), c_frac),
    'intv': ('dtcalendar.hpp', lambda g: (lambda r: (r, g.randint(0, 100000), g_tod(g, r), g.randint(0, 100000), g_tod(g, r)))(g.randint(0, 2)), c_intv),
    'rest': ('datetime_read.hpp', lambda g: (g_mjd(g), g_tod(g, 0)), c_rest),
    'make': ('dtcalendar.hpp', lambda g: (lambda r: (r,) + g_valid(g) + (R(g, 0, 30), R(g, 0, 70), g_tod(g, r)))(g.randint(0, 2)), c_make),
    'add': ('dtcalendar.hpp', lambda g: (lambda r, q: (r, q, g_mjd(g), g_tod(g, r), R(g, 0, 10 ** 6 * FAC[q])))(g.randint(0, 2), g.randint(0, 2)), c_add),
    'diff': ('dtcalendar.hpp', lambda g: (lambda r, k, x, y: (r, k + g.randint(0, 100000), max(x, y) * FAC[r], k, min(x, y) * FAC[r]))(g.randint(0, 2), g.randint(0, 100000), g_tod(g, 0), g_tod(g, 0)), c_diff),
    'cmp': ('dtcalendar.hpp', lambda g: (lambda r, k, t: (r, k, t, k + g.choice([0, 0, 1]), g.choice([t, g_tod(g, r)])))(g.randint(0, 2), g_mjd(g), g.randint(0, 80000)), c_cmp),
    'gps': ('dtcalendar.hpp', lambda g: (lambda r: (r, g.randint(44244, 90000), g_tod(g, r)))(g.randint(0, 2)), c_gps),
    'str': ('dtcalendar.hpp', lambda g: (lambda r: (r, g_mjd(g), g_tod(g, r)))(g.randint(0, 2)), c_str),
    'write': ('datetime_write.hpp', lambda g: (g_mjd(g), g_tod(g, 1)), c_write),
    'slash': ('datetime_write.hpp', lambda g: (lambda r: (r, g_mjd(g), g_tod(g, r)))(g.randint(0, 2)), c_slash),
    'read': ('datetime_read.hpp', lambda g: (lambda r: (g.choice(['ymd', 'ydoy', 'ymd_hms', 'yod_hms', 'ydoy_hms']), r, g_mjd(g), g_tod(g, r)))(g.randint(0, 2)), c_read),
    'bad': ('datetime_read.hpp', lambda g: (g.randint(0, 4),), c_bad),
    'gnss': ('gnsstm.hpp', lambda g: (g.randint(0, 5), g.randint(0, 5)), c_gnss),
}
GIVES = {'dtfund.hpp': {'dtfund.hpp'}, 'dtcalendar.hpp': {'dtfund.hpp', 'dtcalendar.hpp'}, 'datetime_read.hpp': {'dtfund.hpp', 'dtcalendar.hpp', 'datetime_read.hpp'},
         'datetime_write.hpp': {'dtfund.hpp', 'dtcalendar.hpp', 'datetime_write.hpp'}, 'gnsstm.hpp': {'gnsstm.hpp'}}


def gen_tu(rng, ncalls):
    hs = [rng.choice(HEADERS) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    have = set().union(*[GIVES[h] for h in hs])
    names = [n for n in CALLS if CALLS[n][0] in have]
    best = [n for n in names if CALLS[n][0] in hs] or names
    calls = []
    for _ in range(ncalls):
        n = rng.choice(best if rng.random() < .6 else names)
        calls.append([n, list(CALLS[n][1](rng))])
    return dict(cc=rng.randrange(2), fl=rng.randrange(len(FLAGS)), headers=hs, sys=[rng.choice(SYSTEM) for _ in range(rng.choice([0, 0, 0, 1, 2, 4]))],
                own=[o for o in range(len(OWN)) if rng.random() < .15] if rng.random() < .4 else [], own_after=rng.random() < .5, late_first=rng.random() < .5, thread=rng.random() < .3, calls=calls)


def gen_program(rng, ncalls):
    tus = [gen_tu(rng, ncalls) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))]
    order = list(range(len(tus) + 1))
    rng.shuffle(order)
    return dict(tus=tus, lib=rng.randrange(len(LIBS)), link=rng.choice(['static', 'shared', 'objects']), order=order, ld=rng.randrange(2), checks=False)


def have_of(tu):
    return set().union(*[GIVES[h] for h in tu['headers']]) if tu['headers'] else set()


STATE = ['NDEBUG', 'DEBUG', 'USE_DATETIME_CHECKS']


def checks_of(p):
    return ['-DUSE_DATETIME_CHECKS'] if '-DUSE_DATETIME_CHECKS' in LIBS[p['lib']][1] else []


def tu_text(p, k):
    """Source of file k of program p: run<k>() evaluates the calls; the objects of static storage do so at start and at exit."""
    tu = p['tus'][k]
    t = ''.join('#include <%s>\n' % s for s in tu['sys'])
    own = ''.join(OWN[o] + '\n' for o in tu['own'])
    inc = ''.join('#include "%s"\n' % h for h in tu['headers'])
    t += inc + own if tu['own_after'] else own + inc
    cal = 'dtcalendar.hpp' in have_of(tu)
    t += '#include <string>\n#include <cstdio>\n#include <exception>\n'
    # code of the program itself, to which the headers must do nothing
    t += '#include <stddef.h>\n#include <pthread.h>\nnamespace own%d {\nenum Word { first, last = 100 };\nstruct Pack { char a; long b; char c; double d; short e; };\n__attribute__((noinline)) bool same(double x) { return x == x; }\n__attribute__((noinline)) double per(double x) { return 1 / x; }\n}\n' % k
    t += '#include <cassert>\nstatic int state%d() {\n  int n = 0;\n  assert(++n);\n  (void)n;\n' % k
    for i, m in enumerate(STATE):
        t += '#ifdef %s\n  n += %d;\n#endif\n' % (m, 2 << i)
    t += """  if (sizeof(own%d::Pack) != 40 || offsetof(own%d::Pack, c) != 16 || alignof(own%d::Pack) != 8 || sizeof(own%d::Word) != 4) n += 64;
  volatile double zero = 0, one = 1, tiny = 5e-324;
  const double inf = one / zero, nan = inf - inf, sum = (one + 1e17) - 1e17, neg = -zero;
  if (own%d::same(nan) || !own%d::same(inf) || !(inf > 1e308) || sum != 0 || tiny * one == 0 || own%d::per(neg) > 0) n += 128;
""" % ((k,) * 7)
    t += '  return n;\n}\n'
    t += 'struct Text%d { std::string s; };\n' % k
    t += 'namespace use%d {\nusing namespace ngpt;\n' % k if not tu['own'] else 'namespace ngpt { namespace use%d {\n' % k
    t += 'std::string run() {\n  std::string o;\n  auto I = [&o](long x) { if (!o.empty() && o.back() >= \'0\' && o.back() <= \'9\') o += \',\'; o += std::to_string(x); };\n  (void)I;\n'
    for n, a in tu['calls']:
        t += '  try { %s } catch (const std::exception&) { o += "E"; }\n  o += "\\n";\n' % CALLS[n][2](tuple(a))[0]
    t += '  return o;\n}\n' + ('}\n' if not tu['own'] else '} }\n')
    q = 'use%d' % k if not tu['own'] else 'ngpt::use%d' % k
    if cal:
        for s in SEC:
            t += 'ngpt::datetime<ngpt::%s> make%d(const ngpt::modified_julian_day& j, ngpt::%s s) { return ngpt::datetime<ngpt::%s>(j, s); }\n' % (s, k, s, s)
            t += 'long back%d(const ngpt::datetime<ngpt::%s>& x) { return x.mjd().as_underlying_type() * 1000 + x.sec().as_underlying_type() %% 1000; }\n' % (k, s)
        for m in range(len(p['tus'])):
            if m != k and 'dtcalendar.hpp' in have_of(p['tus'][m]):
                for s in SEC:
                    t += 'ngpt::datetime<ngpt::%s> make%d(const ngpt::modified_julian_day&, ngpt::%s);\nlong back%d(const ngpt::datetime<ngpt::%s>&);\n' % (s, m, s, m, s)
    t += 'static void show%d(const char* w, const std::string& s) { std::printf("[%%s %d]\\n%%s", w, s.c_str()); }\n' % (k, k)
    late = 'namespace { struct Late { Late() { } ~Late() { show%d("late", %s::run()); std::fflush(stdout); } } late; }\n' % (k, q)
    early = 'static const std::string early%d = %s::run();\n' % (k, q)
    t += late + early if tu.get('late_first') else early + late   # the first one outlives what the calls of the other leave behind
    if tu.get('thread'):
        t += 'namespace { struct Local { int n; Local() : n(1) { } ~Local() { show%d("local", %s::run()); } }; }\n' % (k, q)
        t += 'static void* thread%d(void*) { thread_local Local x; if (x.n) show%d("thread", %s::run()); return nullptr; }\n' % (k, k, q)
    t += 'void main%d() {\n  (void)late;\n  show%d("early", early%d);\n  show%d("main", %s::run());\n' % (k, k, k, k, q)
    t += '  std::printf("[state %d] %%d\\n", state%d());\n' % (k, k)
    if tu.get('thread'):
        t += '  pthread_t t; if (!pthread_create(&t, nullptr, thread%d, nullptr)) pthread_join(t, nullptr);\n' % k
    if cal:
        for m in range(len(p['tus'])):
            if 'dtcalendar.hpp' in have_of(p['tus'][m]):
                t += '  std::printf("[cross %d %d] %%ld %%ld %%ld\\n", back%d(make%d(ngpt::modified_julian_day(51544), ngpt::seconds(86399))), back%d(make%d(ngpt::modified_julian_day(51545), ngpt::milliseconds(86399999))), back%d(make%d(ngpt::modified_julian_day(51546), ngpt::microseconds(86399999999L))));\n' % (k, m, m, k, k, m, m, m)
    return t + '}\n'


def main_text(p):
    n = len(p['tus'])
    return ''.join('void main%d();\n' % k for k in range(n)) + 'int main() {\n' + ''.join('  main%d();\n' % k for k in range(n)) + '}\n'


def expected(p):
    r = {}
    for k, tu in enumerate(p['tus']):
        w = [CALLS[n][2](tuple(a))[1] for n, a in tu['calls']]
        for x in ('early', 'main', 'late') + (('thread', 'local') if tu.get('thread') else ()):
            r['%s %d' % (x, k)] = w
        fl = FLAGS[tu['fl']] + checks_of(p)
        r['state %d' % k] = [str(('-DNDEBUG' not in fl) + sum(2 << i for i, m in enumerate(STATE) if '-D' + m in fl))]
        if 'dtcalendar.hpp' in have_of(tu):
            for m, o in enumerate(p['tus']):
                if 'dtcalendar.hpp' in have_of(o):
                    r['cross %d %d' % (k, m)] = ['51544399 51545999 51546999']
    return r


def actual(out):
    r, cur = {}, None
    for l in out.splitlines():
        m = re.match(r'\[(\w+ \d+(?: \d+)?)\]( .*)?$', l)
        if m:
            cur = m.group(1)
            r[cur] = [m.group(2).strip()] if m.group(2) else []
        elif cur:
            r[cur].append(l)
    return r


class ProgramRunner(Runner):
    counter = itertools.count()

    def libs(self):
        self.lib = []
        cmds = []
        for i, (cc, fl) in enumerate(LIBS):
            objs = []
            for s in lib_sources():
                o = '%s/lib%d_%s.o' % (self.d, i, os.path.splitext(os.path.basename(s))[0])
                cmds.append([cc, '-std=c++17', '-w', '-fPIC', '-I' + SRC] + fl + ['-c', s, '-o', o])
                objs.append(o)
            self.lib.append(objs)
        self.libbad = None
        with ThreadPoolExecutor(NPROC) as ex:
            for c, (rc, out) in zip(cmds, ex.map(sh, cmds)):
                if rc != 0:
                    msg = '%s\n%s' % (' '.join(c), out[-3000:])
                    if '/lib0_' in c[-1]:    # the repository's own configuration
                        raise BuildError(msg)
                    self.libbad = self.libbad or msg
        if self.libbad:
            return
        for i, objs in enumerate(self.lib):
            a, so = '%s/lib%d.a' % (self.d, i), '%s/libdt%d.so' % (self.d, i)
            rc, out = sh(['ar', 'rcs', a] + objs)
            if rc != 0:
                raise BuildError(out)
            rc, out = sh([LIBS[i][0], '-shared', '-o', so] + objs)
            if rc != 0:
                raise BuildError(out)

    def judge(self, p):
        """(violated, message)"""
        d = '%s/p%d' % (self.d, next(self.counter))
        os.makedirs(d)
        try:
            return self._judge(p, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def macros(self, p, d):
        """A header leaves every macro of the program and of the standard library as it is."""
        sysh = ''.join('#include <%s>\n' % h for h in SYSTEM + MORE)
        got = []
        for t in (sysh, sysh + ''.join('#include "%s"\n' % h for h in p['headers'])):
            with open(d + '/m.cpp', 'w') as f:
                f.write(t)
            rc, out = sh([COMPILERS[p['cc']], '-std=c++17', '-w', '-I' + SRC] + FLAGS[p['fl']] + ['-dM', '-E', d + '/m.cpp'], env=self.env(), timeout=240)
            if rc == 'timeout' or (type(rc) is int and rc < 0):
                raise RuntimeError('preprocessor ended with %s' % rc)
            if rc:
                return True, 'does not preprocess: %s' % out[-300:]
            got.append(dict((m.group(1), m.group(2)) for m in re.finditer(r'^#define (\w+)(.*)$', out, re.M)))
        for m, v in got[0].items():
            if not m.startswith('_') and got[1].get(m) != v:
                return True, 'including %s changes macro %s from "%s" to "%s"' % (' '.join(p['headers']), m, v, got[1].get(m))
        for m in STATE:
            if m not in got[0] and m in got[1]:
                return True, 'including %s defines macro %s' % (' '.join(p['headers']), m)
        # a macro is a name outside the namespace; guards (empty) and names that carry the library's are no one else's
        new = [m for m in got[1] if m not in got[0] and got[1][m].strip() and not re.match(r'_|NGPT|GGDATETIME|DATETIME|(?i:ngpt|ggdatetime)', m)]
        if new:
            rc, out = sh([COMPILERS[p['cc']], '-std=c++17', '-w', '-I' + SRC] + FLAGS[p['fl']] + ['-dD', '-E', d + '/m.cpp'], env=self.env(), timeout=240)
            f = ''
            for l in out.splitlines():
                m = re.match(r'# \d+ "([^"]*)"', l)
                if m:
                    f = m.group(1)
                m = re.match(r'#define (\w+)', l)
                if m and m.group(1) in new and os.path.realpath(f).startswith(os.path.realpath(SRC) + '/'):
                    return True, 'including %s takes the name %s for a macro' % (' '.join(p['headers']), m.group(1))
        return False, ''

    def names_compile(self, p, d, names, lib):
        """Does a program that has `names` for itself compile, with the headers of the library or without them?"""
        t = ''.join('#include <%s>\n' % h for h in SYSTEM + MORE)
        own = ''.join(('static int %s = 1;\n' if p['form'] == 'object' else 'struct %s { int own; };\n') % n for n in names)
        inc = ''.join('#include "%s"\n' % h for h in p['headers']) if lib else ''
        t += inc + own if p['after'] else own + inc
        for i, n in enumerate(names):
            t += ('int own_use%d() { return %s + ::%s; }\n' if p['form'] == 'object' else 'int own_use%d(%s x) { ::%s y = x; return y.own; }\n') % (i, n, n)
        src = '%s/n%d.cpp' % (d, next(self.counter))
        with open(src, 'w') as f:
            f.write(t)
        rc, out = sh([COMPILERS[p['cc']], '-std=c++17', '-w', '-fsyntax-only', '-I' + SRC] + FLAGS[p['fl']] + [src], env=self.env(), timeout=240)
        if rc == 'timeout' or rc < 0:
            raise RuntimeError('compiler ended with %s' % rc)
        return rc == 0, out

    def names(self, p, d):
        """A program may use every name of the library for itself, outside namespace ngpt."""
        if self.names_compile(p, d, p['names'], True)[0]:
            return False, ''

        def blame(names):    # the names that are to blame, or those that the standard headers have taken
            if self.names_compile(p, d, names, True)[0]:
                return []
            if len(names) == 1:
                return names if self.names_compile(p, d, names, False)[0] else []
            h = len(names) // 2
            return blame(names[:h]) + blame(names[h:])
        bad = blame(p['names'])
        if not bad:
            return False, ''
        out = self.names_compile(p, d, bad[:1], True)[1]
        p['names'] = bad[:1]
        return True, 'a program that includes %s cannot use the name %s for %s of its own: %s' % (' '.join(p['headers']), bad[0], 'an object' if p['form'] == 'object' else 'a class', ' '.join(re.findall(r'error: .*', out)[:2]))

    def free(self, words, form):
        """Leaves out the names that the standard headers have taken (those that the messages of the compilers quote)."""
        for _ in range(12):
            gone = set()
            for cc in (0, 1):
                for fl in (0, len(FLAGS) - 3):
                    ok, out = self.names_compile(dict(form=form, after=False, cc=cc, fl=fl, headers=[]), self.d, words, False)
                    if not ok:
                        quoted = set(re.findall(r'\w+', ' '.join(re.findall(r'error: (.*)', out))))
                        gone |= quoted & set(words)
            if not gone:
                break
            words = [w for w in words if w not in gone]
        return words

    def name_programs(self, rng):
        """Programs with the identifiers of the library's headers as names of their own. The names guide the generation only."""
        words = set()
        for h in HEADERS:
            with open('%s/%s' % (SRC, h)) as f:
                t = f.read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|^[ \t]*#[^\n]*', ' ', t, flags=re.S | re.M)
            words |= set(re.findall(r'\b[A-Za-z]\w*', t))
        words = sorted(w for w in words if '__' not in w and w not in KEYWORDS and w not in ('ngpt', 'std'))
        self.t['names'] = len(words)
        out = []
        for form in ('object', 'class'):
            free = self.free(words, form)
            self.t['names ' + form] = len(free)
            for after in (False, True):
                for cc in (0, 1):
                    w = free[:]
                    rng.shuffle(w)
                    for i in range(0, len(w), 110):
                        hs = rng.choice([HEADERS, list(reversed(HEADERS)), [rng.choice(HEADERS)]]) if i else HEADERS
                        out.append(dict(names=w[i:i + 110], form=form, after=after, cc=cc, fl=rng.randrange(len(FLAGS)), headers=hs))
        return out

    def _judge(self, p, d):
        if 'macros' in p:
            return self.macros(p, d)
        if 'names' in p:
            return self.names(p, d)
        objs = []
        chk = checks_of(p)
        for k in range(len(p['tus']) + 1):
            last = k == len(p['tus'])
            src = '%s/f%d.cpp' % (d, k)
            with open(src, 'w') as f:
                f.write(main_text(p) if last else tu_text(p, k))
            tu = dict(cc=p['ld'], fl=0) if last else p['tus'][k]
            o = '%s/f%d.o' % (d, k)
            rc, out = sh([COMPILERS[tu['cc']], '-std=c++17', '-w', '-I' + SRC] + FLAGS[tu['fl']] + chk + ['-c', src, '-o', o], env=self.env(), timeout=240)
            if rc == 'timeout' or rc < 0:
                raise RuntimeError('compiler ended with %s' % rc)
            if rc != 0:
                return True, 'file %d does not compile: %s' % (k, ' '.join(re.findall(r'error: .*', out)[:2]) or out[-300:])
            objs.append(o)
        objs = [objs[i] for i in p['order'] if i < len(objs)]
        i = p['lib']
        lib = {'static': ['%s/lib%d.a' % (self.d, i)], 'shared': ['%s/libdt%d.so' % (self.d, i)], 'objects': self.lib[i]}[p['link']]
        if p['link'] == 'objects' and p['order'][0] % 2:
            cmd = lib + objs
        else:
            cmd = objs + lib
        b = d + '/prog'
        rc, out = sh([COMPILERS[p['ld']], '-o', b] + cmd, env=self.env(), timeout=240)
        if rc == 'timeout' or rc < 0:
            raise RuntimeError('linker ended with %s' % rc)
        if rc != 0:
            return True, 'does not link: %s' % (' | '.join(re.findall(r'(?:multiple definition of|undefined reference to)[^\n]*', out)[:3]) or out[-300:])
        rc, out = sh([b], env=self.env(), timeout=60)
        if rc != 0:
            return True, 'the program ends with %s: %s' % (rc, out[-300:])
        want, got = expected(p), actual(out)
        for k in want:
            if got.get(k) != want[k]:
                g = got.get(k)
                if g is None or len(g) != len(want[k]):
                    return True, '%s: no complete output' % k
                j = [x for x in range(len(g)) if g[x] != want[k][x]][0]
                what = '' if k[:5] in ('cross', 'state') else ' for %s%s' % (p['tus'][int(k.split()[1])]['calls'][j][0], p['tus'][int(k.split()[1])]['calls'][j][1])
                return True, '[%s] got "%s", want "%s"%s' % (k, g[j], want[k][j], what)
        return False, ''

    def shrink(self, p, budget=120):
        if 'macros' in p or 'names' in p:
            return p
        n = 0

        def test(c):
            nonlocal n
            n += 1
            return self.judge(c)[0]

        def copy(x):
            return json.loads(json.dumps(x))
        changed = True
        while changed and n < budget:
            changed = False
            cands = []
            for k in range(len(p['tus'])):
                if len(p['tus']) > 1:
                    c = copy(p)
                    del c['tus'][k]
                    c['order'] = [x - (x > k) for x in c['order'] if x != k]
                    cands.append(c)
            for k, tu in enumerate(p['tus']):
                m = len(tu['calls'])
                for lo, hi in ([(0, m)] if m else []) + ([(0, m // 2), (m // 2, m)] if m > 1 else []) + ([(x, x + 1) for x in range(m)] if 1 < m <= 8 else []):
                    c = copy(p)
                    del c['tus'][k]['calls'][lo:hi]
                    cands.append(c)
                for key in ('sys', 'own'):
                    if tu[key]:
                        c = copy(p)
                        c['tus'][k][key] = []
                        cands.append(c)
                for x in range(len(tu['headers'])):
                    c = copy(p)
                    del c['tus'][k]['headers'][x]
                    have = have_of(c['tus'][k])
                    if have and all(CALLS[q][0] in have for q, _ in tu['calls']):
                        cands.append(c)
                if tu['fl'] or tu['cc']:
                    c = copy(p)
                    c['tus'][k].update(fl=0, cc=0)
                    cands.append(c)
                if tu.get('thread') or tu.get('late_first'):
                    c = copy(p)
                    c['tus'][k].update(thread=False, late_first=False)
                    cands.append(c)
            if p['link'] != 'static' or p['lib'] or p['ld'] or p['order'] != sorted(p['order']):
                c = copy(p)
                c.update(link='static', lib=0, ld=0, order=sorted(p['order']))
                cands.append(c)
            for c in cands:
                if n >= budget:
                    break
                if test(c):
                    p, changed = c, True
                    break
        return p

    def report(self, p):
        for _ in range(3):
            if not self.judge(p)[0]:
                self.notes.append('did not reproduce: %s' % json.dumps(p)[:300])
                return None
        p = self.shrink(p)
        bad, why = self.judge(p)
        os.makedirs(HERE + '/replays', exist_ok=True)
        path = '%s/replays/%s-%s-%d.case' % (HERE, self.pid, self.tier, self.seed)
        if 'macros' in p or 'names' in p:
            with open(path, 'w') as f:
                f.write('property %s\nmode program\njson %s\n# %s\n' % (self.pid, json.dumps(p), why))
            return path, why
        with open(path, 'w') as f:
            f.write('property %s\nmode program\njson %s\n' % (self.pid, json.dumps(p)))
            for k in range(len(p['tus'])):
                f.write('# ---- file %d: %s %s\n' % (k, COMPILERS[p['tus'][k]['cc']], ' '.join(FLAGS[p['tus'][k]['fl']])))
                for l in tu_text(p, k).splitlines():
                    f.write('# %s\n' % l)
            f.write('# %s\n' % why)
        return path, '%d files (%s): %s' % (len(p['tus']), '; '.join(' '.join(t['headers']) for t in p['tus']), why)

    def systematic(self):
        """Every single header and every ordered pair, included twice, in two files each; every user-defined name."""
        out = []
        rng = random.Random(7)
        for hs in [[h] for h in HEADERS] + [list(x) for x in itertools.permutations(HEADERS, 2)] + [list(HEADERS) + list(reversed(HEADERS))]:
            have = set().union(*[GIVES[h] for h in hs])
            names = [n for n in CALLS if CALLS[n][0] in have]
            tus = [dict(cc=c, fl=f, headers=hs + hs[:1], sys=[], own=[], own_after=False, late_first=f == 0, thread=f > 0, calls=[[n, list(CALLS[n][1](rng))] for n in names]) for c, f in ((0, 0), (1, 3))]
            out.append(dict(tus=tus, lib=len(out) % 3, link=['static', 'shared', 'objects'][len(out) % 3], order=[2, 0, 1] if len(out) % 2 else [1, 0, 2], ld=len(out) % 2, checks=False))
        for after in (False, True):
            tus = [dict(cc=c, fl=0, headers=HEADERS, sys=[], own=list(range(len(OWN))), own_after=after, calls=[[n, list(CALLS[n][1](rng))] for n in CALLS]) for c in (0, 1)]
            out.append(dict(tus=tus, lib=0, link='static', order=[0, 1, 2], ld=0, checks=False))
        return out

    def run(self):
        self.ndict, self.known_seen, self.js, self.subs = 0, [], [], []
        self.t = dict(programs=0, files=0, calls=0, multi=0, systematic=0)
        self.samples = []
        t0 = time.time()
        self.libs()
        self.build_s = time.time() - t0
        if self.libbad:
            os.makedirs(HERE + '/replays', exist_ok=True)
            path = '%s/replays/%s-%s-%d.build' % (HERE, self.pid, self.tier, self.seed)
            with open(path, 'w') as f:
                f.write('property %s\nmode build\n' % self.pid)
                for l in self.libbad.splitlines():
                    f.write('# %s\n' % l)
            return path, 'the library does not build: ' + ' | '.join(l for l in self.libbad.splitlines() if 'error' in l or '-std=' in l)[:600]
        rng = random.Random(self.seed)
        n, ncalls = self.cfg['programs_' + self.tier], self.cfg['calls_' + self.tier]
        work = self.systematic()
        self.t['systematic'] = len(work)
        work += [gen_program(rng, ncalls) for _ in range(n)]
        mac = [dict(macros=1, headers=[h], cc=c, fl=f) for h in HEADERS for c in range(2) for f in range(len(FLAGS))]
        mac += self.name_programs(rng)
        found = []

        def one(p):
            if found or time.time() > self.deadline:
                return None
            r = self.judge(p)
            if r[0]:
                found.append(p)
            return r
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, work))
            mres = list(ex.map(one, mac))
        self.t['macro_states'] = sum(r is not None for r in mres)
        for p, r in zip(mac, mres):
            if r is not None and r[0]:
                x = self.report(p)
                if x:
                    return x
        for p, r in zip(work, res):
            if r is not None:
                self.t['programs'] += 1
                self.t['multi'] += len(p['tus']) > 1
                self.t['files'] += len(p['tus'])
                self.t['calls'] += 3 * sum(len(t['calls']) for t in p['tus'])
        for p in work[self.t['systematic']:self.t['systematic'] + 6]:
            self.samples.append(dict(link=p['link'], library=LIBS[p['lib']], files=[dict(compiler=COMPILERS[t['cc']], flags=FLAGS[t['fl']], headers=t['headers'], calls=t['calls'][:2]) for t in p['tus']]))
        for p, r in zip(work, res):
            if r is not None and r[0]:
                x = self.report(p)
                if x:
                    return x
        return None

    def evidence(self, wall, violations):
        t = self.t
        cov = dict(evaluations=t['programs'], distinct_nontrivial=t['multi'],
                   rule='A case is a program of 1 to 5 source files, compiled, linked and run; non-trivial: at least two source files. Every call is evaluated in static initialisation, in main and in static destruction.',
                   samples=self.samples, counts=t, notes=self.notes, build_s=round(self.build_s, 1), known_findings_met=[])
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov, assumptions=self.cfg['assumptions'], wall_s=round(wall, 1), violations=violations)
        os.makedirs(HERE + '/evidence', exist_ok=True)
        p = '%s/evidence/%s.json' % (HERE, self.pid)
        with open(p + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.rename(p + '.tmp', p)

    def replay(self, path, info):
        self.libs()
        if info['mode'] == 'build' or self.libbad:
            print(self.libbad or '')
            print('FAILED' if self.libbad else 'HELD')
            return 1 if self.libbad else 0
        bad, why = self.judge(json.loads(info['json']))
        print(why)
        print('FAILED' if bad else 'HELD')
        return 1 if bad else 0
