"""C22: which expressions compile. Oracle, exhaustive matrix, positive snippets and random programs."""
import itertools, json, os, random, re, time
from concurrent.futures import ThreadPoolExecutor
from check import BuildError, Runner, SRC, HERE, NPROC, lib_sources, sh, log

F = ['year', 'month', 'gps_week', 'day_of_month', 'day_of_year', 'modified_julian_day', 'hours', 'minutes', 'seconds', 'milliseconds', 'microseconds']
SEC = ['seconds', 'milliseconds', 'microseconds']
I = ['bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'char16_t']
D = ['datetime<%s>' % s for s in SEC]
V = ['datetime_interval<%s>' % s for s in SEC]
FROM_INT = {'year', 'modified_julian_day'}
SUMS = {'modified_julian_day', 'seconds', 'milliseconds', 'microseconds'}
CMP = ['==', '!=', '<', '<=', '>', '>=']
COARSER = {('milliseconds', 'seconds'), ('microseconds', 'seconds'), ('microseconds', 'milliseconds')}


def kind(t):
    return 'F' if t in F else 'I' if t in I else 'D' if t in D else 'V'


# ---- the oracle: True = has to compile, False = has to be rejected, None = not judged ----
def rule(op, a, b):
    k = kind(a) + kind(b)
    if op in CMP:
        if k == 'II':
            return None
        return a == b
    if op in '+-':
        if k == 'FF':
            return (a in SUMS or None) if a == b else False
        return False if k in ('FI', 'IF') else None
    if op in ('+=', '-='):
        if k == 'FF':
            return a == b
        if k == 'DV' and a[9:-1] == b[18:-1] and op == '+=':
            return True
        return {'FI': True, 'IF': False}.get(k)
    if op == '=':
        if k == 'FI':
            return None if a == 'month' else True
        if k == 'II':
            return None
        return a == b
    if op == 'implicit':      # b converts to a
        if k == 'FI':
            return a in FROM_INT
        if k == 'II':
            return None
        return a == b
    if op == 'explicit':      # a(b)
        if k == 'FF':
            return True if a == b or (b, a) in COARSER else None
        if k == 'FI':
            return True
        return None
    raise KeyError(op)


BIN = CMP + ['+', '-', '+=', '-=', '=', 'implicit', 'explicit']
EXPR = {**{o: 'std::declval<const A&>() %s std::declval<const B&>()' % o for o in CMP + ['+', '-']},
        **{o: 'std::declval<A&>() %s std::declval<const B&>()' % o for o in ['+=', '-=', '=']},
        'explicit': 'static_cast<A>(std::declval<const B&>())'}
EXPR2 = {**{o: 'std::declval<A&>() %s std::declval<B>()' % o for o in CMP + ['+', '-', '+=', '-=', '=']},
         'explicit': 'A(std::declval<B>())'}

# month(0L) is not judged: it may be an integer or a null pointer
LITERALS = [('0', 'int'), ('1', 'int'), ('0L', 'long'), ('2015u', 'unsigned int'), ("'\\0'", 'char'), ('false', 'bool'), ('7ull', 'unsigned long long'), ('-1', 'int')]


def literal_expr(op, lit, rev, a='std::declval<A&>()', c='std::declval<const A&>()', t='A'):
    if op == 'implicit':
        return 'std::declval<void(&)(%s)>()(%s)' % (t, lit)
    if op == 'explicit':
        return 'static_cast<%s>(%s)' % (t, lit)
    if rev:
        return '%s %s %s' % (lit, op, c)
    return '%s %s %s' % (a if op in ('+=', '-=', '=') else c, op, lit)


PRE = '''#include <cstdio>
#include <type_traits>
#include <utility>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
'''


def convertible_to(x, want):
    return x == want or (x == 'I' and want in FROM_INT)


def call_rules():
    """Calls whose arguments are all fundamental: name -> (expression over A,B,C,..., number of arguments, rule)."""
    r = {}
    r['cal2mjd(3)'] = ('cal2mjd(%s)', 3, lambda t: t == ('year', 'month', 'day_of_month'))
    r['ydoy2mjd(2)'] = ('ydoy2mjd(%s)', 2, lambda t: t == ('year', 'day_of_year'))
    r['modified_julian_day(2)'] = ('modified_julian_day(%s)', 2, lambda t: t == ('year', 'day_of_year'))
    r['modified_julian_day(3)'] = ('modified_julian_day(%s)', 3, lambda t: t == ('year', 'month', 'day_of_month'))
    r['ymd_date(3)'] = ('ymd_date(%s)', 3, lambda t: t == ('year', 'month', 'day_of_month'))
    r['ymd_date(2)'] = ('ymd_date(%s)', 2, lambda t: t == ('year', 'month'))
    r['ydoy_date(2)'] = ('ydoy_date(%s)', 2, lambda t: t == ('year', 'day_of_year'))
    r['dat(1)'] = ('dat(%s)', 1, lambda t: t == ('modified_julian_day',))
    r['dat(2)'] = ('dat(%s)', 2, lambda t: t == ('year', 'month'))
    r['day_of_month::is_valid(2)'] = ('std::declval<const day_of_month&>().is_valid(%s)', 2, lambda t: t == ('year', 'month'))
    r['day_of_year::is_valid(1)'] = ('std::declval<const day_of_year&>().is_valid(%s)', 1, lambda t: t == ('year',))
    for s in SEC:
        cast = [q for q in SEC if q == s or (q, s) in COARSER]
        r[s + '(3)'] = (s + '(%s)', 3, lambda t, s=s: t == ('hours', 'minutes', s))
        r[s + '(2)'] = (s + '(%s)', 2, lambda t: False)
        d = 'datetime<%s>' % s
        r[d + '(1)'] = (d + '(%s)', 1, lambda t: t == ('modified_julian_day',))
        r[d + '(2)'] = (d + '(%s)', 2, lambda t, s=s: t in (('year', 'day_of_year'), ('modified_julian_day', 'hours'), ('modified_julian_day', s), ('gps_week', s)))
        r[d + '(3)'] = (d + '(%s)', 3, lambda t, c=cast: t in (('year', 'month', 'day_of_month'), ('year', 'day_of_year', 'hours'), ('modified_julian_day', 'hours', 'minutes'))
                        or (t[:2] == ('year', 'day_of_year') and t[2] in c))
        v = 'datetime_interval<%s>' % s
        r[v + '(2)'] = (v + '(%s)', 2, lambda t, s=s: t == ('modified_julian_day', s))
        r[d + '.add_seconds(1)'] = ('std::declval<%s&>().add_seconds(%%s)' % d, 1, lambda t: t[0] in SEC)
        r[d + '.remove_seconds(1)'] = ('std::declval<%s&>().remove_seconds(%%s)' % d, 1, lambda t: t[0] in SEC)
        r[d + '.add(2)'] = ('std::declval<const %s&>().add(%%s)' % d, 2, lambda t, c=cast: t[0] == 'modified_julian_day' and t[1] in c)
        for q in SEC:
            r['%s.cast_to<%s>(0)' % (d, q)] = ('std::declval<const %s&>().template cast_to<%s>()' % (d, q), 0, lambda t: True)
            r['cast_to<%s,%s>(1)' % (s, q)] = ('cast_to<%s,%s>(%%s)' % (s, q), 1, lambda t, s=s: t[0] == s)
            r['delta_sec(%s,%s)(0)' % (s, q)] = ('delta_sec(std::declval<datetime<%s>>(), std::declval<datetime<%s>>())' % (s, q), 0, lambda t: True)
        pre = [('ymd', 'std::declval<year>(), std::declval<month>(), std::declval<day_of_month>(), ', ('year', 'month', 'day_of_month')),
               ('ydoy', 'std::declval<year>(), std::declval<day_of_year>(), ', ('year', 'day_of_year')),
               ('mjd', 'std::declval<modified_julian_day>(), ', ('modified_julian_day',))]
        for n, e, p in pre:
            def ok(t, p=p, c=cast, s=s, n=n):
                if n == 'mjd':
                    return t == ('hours', 'minutes', s)
                return (len(t) == 2 and t == ('hours', 'minutes')) or (len(t) == 3 and t[:2] == ('hours', 'minutes') and t[2] in c) or (len(t) == 1 and (t[0] == 'hours' or t[0] in c))
            for k in ([1, 2, 3] if n == 'ymd' else [2, 3] if n == 'ydoy' else [3]):
                r['%s(%s+%d)' % (d, n, k)] = ('%s(%s%%s)' % (d, e), k, ok)
    return r


CALLS = call_rules()
COMPILERS = [('g++', ['-DDEBUG']), ('clang++', []), ('g++', ['-DUSE_DATETIME_CHECKS'])]


def matrix_tus():
    """[(name, source, [(case, expected or None), ...])]: each line of the program's output is one character per case."""
    out = []
    types = F + I + D + V
    for op in BIN:
        for var in (1, 2) if op in EXPR else (1,):
            src = PRE
            if op == 'implicit':
                src += 'template<class A, class B> struct Op : std::is_convertible<B, A> {};\n'
            else:
                src += ('template<class A, class B, class = void> struct Op : std::false_type {};\n'
                        'template<class A, class B> struct Op<A, B, decltype(void(%s))> : std::true_type {};\n' % (EXPR if var == 1 else EXPR2)[op])
            cases = []
            src += ('template<class A, class... B> void row() { const char s[] = {(Op<A, B>::value ? \'1\' : \'0\')..., 0}; puts(s); }\nint main() {\n')
            for a in types:
                src += 'row<%s, %s>();\n' % (a, ', '.join(types))
                cases += [(dict(form='binary', op=op, var=var, types=[a, b]), rule(op, a, b)) for b in types]
            out.append(('%s#%d' % (op, var), src + '}\n', cases))
    # integer literals: a literal zero is also a null pointer
    for op in BIN:
        src, cases, body = PRE, [], ''
        for n, (lit, lt) in enumerate(LITERALS):
            for rev in (False, True):
                if rev and op not in CMP + ['+', '-']:
                    continue
                src += ('template<class A, class = void> struct L%d%d : std::false_type {};\ntemplate<class A> struct L%d%d<A, decltype(void(%s))> : std::true_type {};\n'
                        % (n, rev, n, rev, literal_expr(op, lit, rev)))
                body += "{ const char s[] = {%s, 0}; puts(s); }\n" % ', '.join("L%d%d<%s>::value ? '1' : '0'" % (n, rev, t) for t in F + D + V)
                cases += [(dict(form='literal', op=op, lit=lit, rev=rev, types=[t]), rule(op, lt, t) if rev else None if (op, lit, t) == ('explicit', '0L', 'month') else rule(op, t, lt)) for t in F + D + V]
        out.append(('literal %s' % op, src + 'int main() {\n' + body + '}\n', cases))
    groups = {}
    for n, (e, k, f) in sorted(CALLS.items()):
        groups.setdefault(n.split('<')[0].split('(')[0] + str(k), []).append(n)
    for g, names in sorted(groups.items()):
        for num, part in enumerate([names[i:i + 6] for i in range(0, len(names), 6)]):
            src, cases = PRE, []
            body = ''
            for m, n in enumerate(part):
                e, k, f = CALLS[n]
                ps = ['A%d' % i for i in range(k)]
                args = ', '.join('std::declval<%s>()' % p for p in ps)
                ex = e % args if '%s' in e else e
                if k == 0:
                    src += 'template<class Z, class = void> struct Q%d : std::false_type {};\ntemplate<class Z> struct Q%d<Z, decltype(void(%s))> : std::true_type {};\n' % (m, m, ex)
                    body += 'puts(Q%d<int>::value ? "1" : "0");\n' % m
                    cases.append((dict(form='call', name=n, types=[]), f(())))
                else:
                    cl = ', '.join('class ' + p for p in ps)
                    src += ('template<class Z, %s> struct Q%d : std::false_type {};\ntemplate<%s> struct Q%d<decltype(void(%s)), %s> : std::true_type {};\n'
                            % (cl, m, cl, m, ex, ', '.join(ps)))
                    lead = ps[:-1]
                    for t in itertools.product(F, repeat=k - 1):
                        body += '{ const char s[] = {%s, 0}; puts(s); }\n' % ', '.join("Q%d<void, %s>::value ? '1' : '0'" % (m, ', '.join(t + (x,))) for x in F)
                        cases += [(dict(form='call', name=n, types=list(t + (x,))), f(t + (x,))) for x in F]
            out.append(('%s#%d' % (g, num), src + 'int main() {\n' + body + '}\n', cases))
    return out


def case_source(c):
    """A complete program that contains the expression of a matrix case."""
    if c['form'] == 'snippet':
        return PRE + c['text']
    if c['form'] == 'literal':
        t = c['types'][0]
        return PRE + 'void take(%s);\nvoid f(%s& a) { (void)(%s); }\n' % (t, t, literal_expr(c['op'], c['lit'], c['rev'], 'a', 'a', t) if c['op'] != 'implicit' else 'take(%s)' % c['lit'])
    if c['form'] == 'binary':
        a, b = c['types']
        if c['op'] == 'implicit':
            return PRE + 'void take(%s);\nvoid f(%s b) { take(b); }\n' % (a, b)
        e = {'explicit': '(void)static_cast<A>(b);'}.get(c['op'], '(void)(a %s b);' % c['op'])
        return PRE + 'typedef %s A; typedef %s B;\nvoid f(A& a, const B& b) { %s }\n' % (a, b, e)
    e, k, f = CALLS[c['name']]
    args = ', '.join('x%d' % i for i in range(k))
    e = re.sub(r'std::declval<((?:[^<>]|<[^<>]*>)*)>\(\)', r'mk<\1>()', e % args if '%s' in e else e)
    return PRE + 'template<class T> T mk();\nvoid f(%s) { (void)0; %s%s; }\n' % (
        ', '.join('%s x%d' % (t, i) for i, t in enumerate(c['types'])), '' if re.match(r'.*\.(add|remove)_seconds', e) else 'auto r = ', e)


# ---- what is explicitly provided, in constant expressions ----
def positive_snippets():
    S = []

    def fn(body, want=None):
        S.append('constexpr bool f() { %s }\nstatic_assert(f(), "");\n' % body)
    for t in F:
        u = 'typename %s::underlying_type' % t
        U = '%s::underlying_type' % t
        for op in CMP:
            for x, y in ((3, 4), (4, 3), (5, 5)):
                S.append('static_assert((%s{%d} %s %s{%d}) == (%d %s %d), "");\n' % (t, x, op, t, y, x, op, y))
        fn('%s a{5}; a += %s{3}; return a == %s{8} && a.as_underlying_type() == 8;' % (t, t, t))
        fn('%s a{5}; a -= %s{3}; return a == %s{2};' % (t, t, t))
        for i in I:
            v = '1' if i == 'bool' else '3'
            fn('%s a{5}; a += static_cast<%s>(%s); return a == %s{5 + %s};' % (t, i, v, t, v))
            fn('%s a{5}; a -= static_cast<%s>(%s); return a == %s{5 - %s};' % (t, i, v, t, v))
            if t != 'month':
                fn('%s a{5}; a = static_cast<%s>(%s); return a == %s{%s};' % (t, i, v, t, v))
            S.append('constexpr %s v(static_cast<%s>(%s)); static_assert(v == %s{%s}, "");\n' % (t, i, v, t, v))
        fn('%s a{5}; %s b = ++a; return a == %s{6} && b == a;' % (t, t, t))
        fn('%s a{5}; %s b = a++; return a == %s{6} && b == %s{5};' % (t, t, t, t))
        fn('%s a{5}; %s b = --a; return a == %s{4} && b == a;' % (t, t, t))
        fn('%s a{5}; %s b = a--; return a == %s{4} && b == %s{5};' % (t, t, t, t))
        fn('%s a{5}; (a += 2) -= 1; ++(++a); return a == %s{8};' % (t, t))
        fn('%s a{5}; %s b(a); %s c{}; c = b; return c == a && %s{} == %s();' % (t, t, t, t, t))
        S.append('static_assert(std::is_same<%s, %s>::value || std::is_same<%s, %s>::value, "");\n' % (U, 'int', U, 'long'))
        S.append('static_assert(noexcept(%s{1} == %s{2}) && %s::is_dt_fundamental_type, "");\n' % (t, t, t))
    for t in sorted(FROM_INT):
        S.append('constexpr %s a = 2015; static_assert(a == %s{2015}, "");\n' % (t, t))
        S.append('constexpr long g(%s y) { return y.as_underlying_type(); } static_assert(g(17) == 17, "");\n' % t)
    for t in sorted(SUMS):
        S.append('static_assert(%s{5} + %s{3} == %s{8}, "");\n' % (t, t, t))
        S.append('static_assert(%s{5} - %s{3} == %s{2}, "");\n' % (t, t, t))
        S.append('static_assert(std::is_same<decltype(%s{5} + %s{3}), %s>::value && std::is_same<decltype(%s{5} - %s{3}), %s>::value, "");\n' % ((t,) * 6))
    for a, b in sorted(COARSER):
        S.append('static_assert(static_cast<%s>(%s{5000000}) == %s{%d}, "");\n' % (b, a, b, 5000000 // (1000000 if (a, b) == ('microseconds', 'seconds') else 1000)))
        S.append('constexpr %s x(%s{7000000}); static_assert(x > %s{0}, "");\n' % (b, a, b))
    for t, l in (('year', 'Y'), ('month', 'M'), ('day_of_month', 'D'), ('hours', 'h'), ('minutes', 'm'), ('seconds', 'sec'), ('milliseconds', 'millisec'), ('microseconds', 'microsec')):
        S.append('static_assert(12_%s == %s{12} && std::is_same<decltype(12_%s), %s>::value, "");\n' % (l, t, l, t))
    S.append('static_assert(is_leap(2000) && !is_leap(1900) && year{2016}.is_leap(), "");\n')
    S.append('static_assert(day_of_year{366}.is_valid(year{2016}) && !day_of_year{366}.is_valid(year{2015}), "");\n')
    S.append('static_assert(hours{5} < hours{6} && minutes{59} != minutes{60}, "");\n')
    fn('hours h{49}; int d = h.remove_days(); return d == 2 && h == hours{1};')
    for i, s in enumerate(SEC):
        f = 1000 ** i
        fn('constexpr %s s(hours{1}, minutes{2}, %s{3}); return s.as_underlying_type() == 3720L * %d + 3;' % (s, s, f))
        fn('constexpr %s s(hours{1}, minutes{2}, 3.0); return s.as_underlying_type() == 3723L * %d;' % (s, f))
        fn('%s s{86400L * %d * 2 + 5}; int d = s.remove_days(); return d == 2 && s == %s{5} && s.to_days() == 0 && !s.more_than_day();' % (s, f, s))
        fn('constexpr auto t = %s{3661L * %d}.to_hmsf(); return std::get<0>(t) == hours{1} && std::get<1>(t) == minutes{1} && std::get<2>(t) == seconds{1} && std::get<3>(t) == 0;' % (s, f))
        S.append('static_assert(%s{86400L * %d}.fractional_days() == 1.0 && %s{0}.to_fractional_seconds() == 0.0, "");\n' % (s, f, s))
        S.append('static_assert(max_days_allowed<%s>() > 100000, "");\n' % s)
        S.append('static_assert(%s::max_in_day == 86400L * %d && %s::sec_factor<long>() == %d && %s::is_of_sec_type, "");\n' % (s, f, s, f, s))
        v = 'datetime_interval<%s>' % s
        S.append('constexpr %s a(modified_julian_day{1}, %s{86400L * %d}); constexpr %s b(modified_julian_day{2}, %s{0}); static_assert(a == b && !(a != b) && a <= b && a >= b && !(a < b) && !(a > b), "");\n' % (v, s, f, v, s))
        S.append('constexpr %s a{}; static_assert(a.as_mjd() == 0.0, "");\n' % v)
        fn('%s a(modified_julian_day{1}, %s{86400L * %d}); a.normalize(); return a.as_mjd() == 2.0;' % (v, s, f))
    fn('double x = 0; seconds s = milliseconds{1500}.resolve_sec(x); return s == seconds{1} && x == 0.5;')
    S.append('static_assert(modified_julian_day::max() > modified_julian_day::min(), "");\n')
    S.append('constexpr ymd_date a{year{2015}, month{3}, day_of_month{5}}; static_assert(a.__year == year{2015} && a.__month == month{3} && a.__dom == day_of_month{5}, "");\n')
    S.append('constexpr ydoy_date a{year{2015}, day_of_year{5}}; static_assert(a.__year == year{2015} && a.__doy == day_of_year{5}, "");\n')
    S.append('constexpr ymd_date a{}; constexpr ydoy_date b{}; static_assert(a.__year == b.__year, "");\n')
    S.append('month a("jan"); month b{7}; explicit_ok: ;\n'.replace('explicit_ok: ;', ''))
    for s in SEC:
        S.append('void g(datetime<%s>& t, const datetime_interval<%s>& v) { t += v; auto w = t.delta_date(t); auto x = delta_date(t, t); auto q = v / 3; (void)w; (void)x; (void)q; }\n' % (s, s))
        S.append('void g(datetime<%s>& t) { %s s{0}; long l = 0; auto w = t.as_gps_wsow(s); w = t.as_gps_wsow(l); auto y = t.as_ymd(); auto z = t.as_ydoy(); auto h = t.as_hmsf(); double m = t.as_mjd(); auto k = dat(t); auto i = t.sec_as_i(); auto j = t.mjd(); auto e = t.sec(); int d = day_of_week(s); (void)w; (void)y; (void)z; (void)h; (void)m; (void)k; (void)i; (void)j; (void)e; (void)d; std::string o = t.stringify(); }\n' % (s, s))
        S.append('bool g(datetime<%s> a, datetime<%s> b) { return a == b || a != b || a < b || a > b || a <= b || a >= b || a == datetime<%s>::max() || a == datetime<%s>::min() || a == datetime<%s>(); }\n' % ((s,) * 5))
        S.append('datetime<%s> g(year y, month m, day_of_month d, day_of_year n, hours h, minutes k, double x) { datetime<%s> a(y, m, d, h, k, x); datetime<%s> b(y, n, h, k, x); return a < b ? a : b; }\n' % (s, s, s))
        S.append('%s g(hours h, minutes m) { return %s(h, m, 1.5); }\n' % (s, s))
    S.append('bool g(month m, day_of_month d) { return m.is_valid() && d.is_valid(2015, m) && gps_week(3).is_valid() && cal2mjd(2015, m, d) == modified_julian_day(2015, m, d); }\n')
    S.append('bool g(day_of_year d) { return d.is_valid(2015) && ydoy2mjd(2015, d) == modified_julian_day(2015, d); }\n')
    S.append('void g(modified_julian_day j) { auto a = j.to_ymd().to_ydoy().to_ymd(); auto b = j.to_ydoy(); bool c = a.is_valid() && b.is_valid(); double d = j.to_julian_day(); (void)c; (void)d; }\n')
    S.append('const char* g(month m) { return m == month("March") ? m.short_name() : m.long_name(); }\n')
    S.append('hours g(minutes m) { return m.remove_hours(); }\n')
    return S


# ---- random programs ----
LIM = 1000000


def gen_program(rng, negative):
    """A list of integers; decoded into statements over typed variables."""
    n = rng.choice([3, 5, 8, 12, 20])
    return [int(negative)] + [rng.randrange(0, 1 << 20) for _ in range(n * 4)]


def decode_program(v):
    """(statements, checks) of a well-typed program; with v[0] set, the first ill-typed statement met ends it."""
    neg = v[0]
    vars_, out = [], []    # (type, value); bool variables are not used again

    def new(t, val):
        vars_.append([t, val])
        return len(vars_) - 1
    for k in range(0, (len(v) - 1) // 4):
        op, a, b, x = v[1 + 4 * k:5 + 4 * k]
        o = op % 12
        val = x % 1999 - 999
        if o < 3 or len(vars_) < 2:
            t = F[a % 11]
            # same type more often than not
            if vars_ and b % 3:
                t = vars_[a % len(vars_)][0]
            i = new(t, val)
            form = x % 3
            out.append('%s x%d%s;' % (t, i, '{%d}' % val if form else '(%d)' % val) if t not in FROM_INT or form != 2 else '%s x%d = %d;' % (t, i, val))
            continue
        i, j = a % len(vars_), b % len(vars_)
        same = [q for q in range(len(vars_)) if vars_[q][0] == vars_[i][0]]
        if not neg or x % 4:
            j = same[b % len(same)]
        ti, tj = vars_[i][0], vars_[j][0]
        lit = x % 5 == 0 and o in (4, 5, 6, 7, 8, 9)      # second operand an integer literal
        it = I[(x // 8) % len(I)]
        if it == 'bool':
            lv = val % 2
        elif it in ('char', 'signed char', 'short', 'int', 'long', 'long long'):
            lv = val % 100
        else:
            lv = val % 100
        rhs = 'static_cast<%s>(%d)' % (it, lv) if lit else 'x%d' % j
        rt = it if lit else tj
        vi, vj = vars_[i][1], lv if lit else vars_[j][1]
        if o in (3, 4):
            c = CMP[x % 6]
            if lit and x % 7 == 0:
                ok, text = rule(c, rt, ti), '%s %s x%d' % (rhs, c, i)
            else:
                ok, text = rule(c, ti, rt), 'x%d %s %s' % (i, c, rhs)
            if ok:
                out.append('if ((%s) != (%d %s %d)) return false;' % (text, vi, c, vj))
        elif o in (5, 6):
            c = '+' if o == 5 else '-'
            ok = rule(c, ti, rt)
            text = 'x%d %s %s' % (i, c, rhs)
            if ok and abs(vi) < LIM and abs(vj) < LIM:
                q = new(ti, vi + vj if c == '+' else vi - vj)
                out.append('%s x%d{%s};' % (ti, q, text))
        elif o in (7, 8):
            c = '+=' if o == 7 else '-='
            ok = rule(c, ti, rt)
            text = 'x%d %s %s' % (i, c, rhs)
            if ok and abs(vi) < LIM and abs(vj) < LIM:
                vars_[i][1] = vi + vj if c == '+=' else vi - vj
                out.append(text + ';')
        elif o == 9:
            ok = rule('=', ti, rt)
            text = 'x%d = %s' % (i, rhs)
            if ok:
                vars_[i][1] = vj
                out.append(text + ';')
        elif o == 10:
            c = ['++x%d', 'x%d++', '--x%d', 'x%d--'][x % 4] % i
            d = 1 if '++' in c else -1
            ok, text = True, ''
            seen = vi + (d if c[0] in '+-' else 0)
            vars_[i][1] = vi + d
            out.append('if ((%s) != %s{%d}) return false;' % (c, ti, seen))
        else:
            t = F[x % 11]
            ok = rule('implicit', t, ti)
            text = '%s y%d = x%d' % (t, k, i)
            if ok:
                q = new(t, vi)
                out.append('%s x%d = x%d;' % (t, q, i))
        if ok is False and neg:
            out.append('(void)(%s);' % text if o != 11 else text + ';')
            return out, True
    out.append('return %s;' % (' && '.join('x%d.as_underlying_type() == %d' % (q, w[1]) for q, w in enumerate(vars_)) or 'true'))
    return out, False


def program_text(v, ns=''):
    st, ill = decode_program(v)
    st = list(st)
    if ill:
        st.append('return true;')
    body = 'constexpr bool f%s() {\n  %s\n}\n' % (ns, '\n  '.join(st))
    return body + ('' if ill else 'static_assert(f%s(), "");\n' % ns), ill


class CompileRunner(Runner):
    def cc(self, i):
        c, fl = COMPILERS[i]
        return [c, '-std=c++17', '-w', '-O0', '-I' + SRC] + fl

    counter = itertools.count()

    def compiles(self, text, i=0):
        p = '%s/t-%d.cpp' % (self.d, next(self.counter))
        with open(p, 'w') as f:
            f.write(text)
        rc, out = sh(self.cc(i) + ['-fsyntax-only', p], env=self.env(), timeout=240)
        os.unlink(p)
        if rc in ('timeout',) or (isinstance(rc, int) and rc < 0):
            raise RuntimeError('compiler ended with %s' % rc)
        return rc == 0, out

    def pmap(self, f, xs):
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(f, xs))

    def judge(self, c, i):
        """(violated, message) of one case, compiled on its own."""
        want = c['want']
        if c['form'] == 'program':
            text = PRE + program_text(c['v'])[0]
        else:
            text = case_source(c)
        ok, out = self.compiles(text, i)
        return ok != want, text, out

    def report(self, c, i):
        for _ in range(3):
            bad, text, out = self.judge(c, i)
            if not bad:
                self.notes.append('did not reproduce: %s' % c)
                return None
        if c['form'] == 'program':
            v = list(c['v'])
            changed = True

            def test(w):
                ill = decode_program(w)[1]
                if ill == c['want']:      # ill-typed programs are to be rejected, others to compile
                    return False
                return self.judge(dict(c, v=w), i)[0]
            budget = 150
            while changed and budget > 0:
                changed = False
                for k in range((len(v) - 1) // 4):
                    w = v[:1 + 4 * k] + v[5 + 4 * k:]
                    budget -= 1
                    if budget > 0 and test(w):
                        v, changed = w, True
                        break
            c = dict(c, v=v)
            bad, text, out = self.judge(c, i)
        os.makedirs(HERE + '/replays', exist_ok=True)
        path = '%s/replays/%s-%s-%d.case' % (HERE, self.pid, self.tier, self.seed)
        with open(path, 'w') as f:
            f.write('property %s\nmode compile\ncompiler %d\njson %s\n' % (self.pid, i, json.dumps(c)))
            for l in (text + out[-1500:]).splitlines():
                f.write('# %s\n' % l)
        expr = text[len(PRE):].strip()
        return path, '%s %s: %s' % (' '.join(COMPILERS[i][0:1]), 'does not compile' if c['want'] else 'compiles but has to be rejected', expr[-400:])

    def run(self):
        self.t = dict(matrix=0, matrix_reject=0, matrix_accept=0, matrix_unjudged=0, positive=0, programs_ok=0, programs_ill=0, singles=0)
        self.samples = []
        self.ndict, self.known_seen, self.js, self.subs = 0, [], [], []
        t0 = time.time()
        rng = random.Random(self.seed)
        for s in lib_sources():    # the library itself has to build
            rc, out = sh(self.cc(0) + ['-fsyntax-only', s])
            if rc != 0:
                raise BuildError(out)
        ok, out = self.compiles(PRE)
        if not ok:
            raise BuildError(out)
        self.build_s = time.time() - t0
        return self.matrix() or self.positives() or self.programs(rng)

    # every operator and every call over every combination of types, by substitution failure
    def matrix(self):
        work = [(i, t) for t in matrix_tus() for i in range(len(COMPILERS))]
        work.sort(key=lambda w: -len(w[1][2]))

        def one(w):
            i, (name, src, cases) = w
            b = '%s/m%d-%s' % (self.d, i, re.sub(r'[^A-Za-z0-9]', lambda m: '_%x' % ord(m.group(0)), name))
            with open(b + '.cpp', 'w') as f:
                f.write(src)
            rc, out = sh(self.cc(i) + ['-o', b, b + '.cpp'], env=self.env(), timeout=400)
            if rc != 0:
                return None
            rc, out = sh([b], env=self.env(), timeout=60)
            bits = out.replace('\n', '')
            if rc != 0 or len(bits) != len(cases):
                raise RuntimeError('matrix program %s: %s' % (name, out[-300:]))
            return bits
        for (i, (name, src, cases)), bits in zip(work, self.pmap(one, work)):
            if bits is None:
                bad = self.singles(name, cases, i)
            else:
                bad = None
                for ch, (c, want) in zip(bits, cases):
                    self.t['matrix'] += 1
                    self.t['matrix_unjudged' if want is None else 'matrix_accept' if want else 'matrix_reject'] += 1
                    if want is not None and (ch == '1') != want and not bad:
                        bad = self.report(dict(c, want=want), i)
            if bad:
                return bad
        return None

    # the detection itself is ill-formed (not a substitution failure): compile cases one by one
    def singles(self, name, cases, i):
        self.notes.append('%s: compiled case by case' % name)
        if i:
            return None
        small = [(c, w) for c, w in cases if w is not None and all(t in F or t in ('int', 'long') for t in c['types'])]
        small = [x for x in small if x[1]] + [x for x in small if not x[1]]
        small = small[:400]
        self.t['singles'] += len(small)
        for (c, w), (bad, text, out) in zip(small, self.pmap(lambda x: self.judge(dict(x[0], want=x[1]), i), small)):
            if bad:
                r = self.report(dict(c, want=w), i)
                if r:
                    return r
        return None

    def positives(self):
        S = positive_snippets()
        self.t['positive'] = len(S) * len(COMPILERS)

        def tu(ix):
            return PRE + ''.join('namespace n%d {\n%s}\n' % (k, S[k]) for k in ix)
        parts = [list(range(k, len(S), 8)) for k in range(8)]
        work = [(i, p) for i in range(len(COMPILERS)) for p in parts]
        for (i, p), (ok, out) in zip(work, self.pmap(lambda w: self.compiles(tu(w[1]), w[0]), work)):
            if not ok:
                for k in p:
                    bad = self.judge(dict(form='snippet', text=S[k], want=True), i)[0]
                    if bad:
                        r = self.report(dict(form='snippet', text=S[k], want=True), i)
                        if r:
                            return r
        self.samples += [S[k].strip() for k in (0, len(S) // 3, len(S) - 5)]
        return None

    def programs(self, rng):
        npos, nneg = (4000, 240) if self.tier == 'quick' else (200000, 12000)
        pos, neg = [], []
        while len(pos) < npos:
            v = gen_program(rng, False)
            if len(decode_program(v)[0]) > 2:
                pos.append(v)
        tries = 0
        while len(neg) < nneg and tries < nneg * 50:
            tries += 1
            v = gen_program(rng, True)
            if decode_program(v)[1]:
                neg.append(v)
        self.samples += [program_text(pos[0])[0], program_text(pos[1])[0], program_text(neg[0])[0]]
        # well-typed: in batches, evaluated by the compiler
        size = 125
        work = [(k % 2, pos[j:j + size]) for k, j in enumerate(range(0, npos, size))]

        def batch(w):
            if time.time() > self.deadline:
                return None
            return self.compiles(PRE + ''.join(program_text(v, str(k))[0] for k, v in enumerate(w[1])), w[0])
        for w, r in zip(work, self.pmap(batch, work)):
            if r is None:
                continue
            self.t['programs_ok'] += len(w[1])
            if not r[0]:
                for v in w[1]:
                    if self.judge(dict(form='program', v=v, want=True), w[0])[0]:
                        x = self.report(dict(form='program', v=v, want=True), w[0])
                        if x:
                            return x
        # ill-typed in the last statement: one by one
        work = [(k % 2, v) for k, v in enumerate(neg)]

        def single(w):
            if time.time() > self.deadline:
                return None
            return self.judge(dict(form='program', v=w[1], want=False), w[0])[0]
        for w, r in zip(work, self.pmap(single, work)):
            if r is None:
                continue
            self.t['programs_ill'] += 1
            if r:
                x = self.report(dict(form='program', v=w[1], want=False), w[0])
                if x:
                    return x
        return None

    def evidence(self, wall, violations):
        t = self.t
        ev = t['matrix'] + t['positive'] + t['programs_ok'] + t['programs_ill'] + t['singles']
        n = len(COMPILERS)
        cov = dict(evaluations=ev, distinct_nontrivial=(t['matrix_reject'] + t['matrix_accept']) // n + t['positive'] // n + t['programs_ok'] + t['programs_ill'],
                   rule='matrix: every operator and call over every combination of the 11 fundamental, 13 integer and 6 date-time types, counted once although compiled by '
                        + ', '.join(' '.join([c] + f) for c, f in COMPILERS) + '; non-trivial: the property says whether it compiles. Programs: at least three statements.',
                   samples=self.samples[:20], counts=t, notes=self.notes, exhaustive=True, build_s=round(self.build_s, 1), known_findings_met=[])
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov, assumptions=self.cfg['assumptions'], wall_s=round(wall, 1), violations=violations)
        os.makedirs(HERE + '/evidence', exist_ok=True)
        p = '%s/evidence/%s.json' % (HERE, self.pid)
        with open(p + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.rename(p + '.tmp', p)

    def replay(self, path, info):
        bad, text, out = self.judge(json.loads(info['json']), int(info['compiler']))
        print(text[len(PRE):])
        print(out[-1500:])
        print('FAILED' if bad else 'HELD')
        return 1 if bad else 0
