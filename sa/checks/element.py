"""Vectors, valarrays and complex numbers: the numeric operators act element by element."""
from checks.estim import *
from checks.estim import Src

HEAD = r'''#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#include <complex>
#include <valarray>
#include "common.hpp"
namespace num = boost::numeric;
typedef std::vector<double> VDx; typedef std::vector<int> VIx; typedef std::vector<short> VSx; typedef std::valarray<long> ALx; typedef std::valarray<double> ADx; typedef std::valarray<int> AIx; typedef std::complex<double> CDx;
'''
PRE = HEAD
PAIRS = []
# combinations that do not compile (valarray<int> with a floating result)
NOT_SUPPORTED = {('AIx', 'moment2', True), ('AIx', 'moment3', True), ('AIx', 'lvariance', True), ('AIx', 'variance', False), ('AIx', 'variance', True)}
NOT_SUPPORTED |= {('ALx', n, w) for v, n, w in NOT_SUPPORTED if v == 'AIx'} | {('VSx', n, w) for n in ('moment2', 'moment3', 'lvariance') for w in (False, True)}


def pair(pid, name, rule, c, r, gen, **kw):
    PAIRS.append((pid, name, rule, c, r, gen, kw))


def vec(rnd, n, ints=False):
    return evalt.Cont([F(rnd.choice((-3, -1, 1, 2, 5, 7))) if ints else F(rnd.choice((-13, -4, -1, 1, 3, 8, 9)), rnd.choice((1, 2, 4))) for _ in range(n)])


def gen(ta, tb):
    def g(rnd, i):
        n = rnd.randint(1, 4)
        env = {'a': vec(rnd, n, ta), 'b': vec(rnd, n, tb), 'c': F(rnd.choice((-7, -2, 3, 5)), 2), 'd': F(rnd.choice((-3, 2, 4)))}
        return env, [], lambda r, j, k: {'k': F(r.randrange(n))}
    return g


def ops(V, Ti, vec_):
    """(name, result type of an element, expression of the set, expression of an element)"""
    D = 'double'
    fa = '(double)s.a[k]'
    L = []
    for nm, op in (('plus', '+'), ('minus', '-'), ('multiplies', '*'), ('divides', '/')):
        L.append((nm, 'num::%s(s.a, s.b)' % nm, 's.a[k] %s s.b[k]' % op))
    L.append(('divides_d', 'num::divides(s.a, s.c)', 's.a[k] / s.c'))
    L.append(('multiplies_d', 'num::multiplies(s.a, s.c)', 's.a[k] * s.c'))
    L.append(('divides_i', 'num::divides(s.a, s.d)', 's.a[k] / s.d'))
    L.append(('multiplies_i', 'num::multiplies(s.a, s.d)', 's.a[k] * s.d'))
    L.append(('fdiv_d', 'num::fdiv(s.a, s.c)', 's.a[k] / s.c'))
    L.append(('fdiv_i', 'num::fdiv(s.a, s.d)', '(double)s.a[k] / s.d'))
    if vec_:
        L.append(('multiplies_l', 'num::multiplies(s.c, s.a)', 's.c * s.a[k]'))
        L.append(('unary_minus', 'num::unary_minus(s.a)', '-s.a[k]'))
    L.append(('promote_d', 'num::promote<%s<double> >(s.a)' % vec_name(V), '(double)s.a[k]'))
    return L


def vec_name(V):
    return 'std::vector' if V.startswith('V') else 'std::valarray'


def single(name, V1, V2, expr, elem, ref, t1, t2, sizeref='s.a.size()'):
    st = 'struct S { %s a; %s b; double c; int d; };\nS mk(%s const &a, %s const &b, double c, int d) { S s; s.a = a; s.b = b; s.c = c; s.d = d; return s; }\nvoid up(S &s) { s.d += 0; }\n' % (V1, V2, V1, V2)
    return st + 'double get_element(S const &s, std::size_t const &k) { return k < s.a.size() && 0 != s.a.size() ? (double)(%s) : 0.; }\nstd::size_t get_size(S const &s) { return %s; }' % (ref if elem is None else elem, sizeref)


for V1, V2, t1, t2 in (('VDx', 'VDx', False, False), ('VIx', 'VDx', True, False), ('VDx', 'VIx', False, True), ('VIx', 'VIx', True, True), ('VSx', 'VSx', True, True), ('VSx', 'VIx', True, True)):
    for nm, ex, rf in ops(V1, None, True):
        n2 = 'el_%s_%s_%s' % (nm, V1, V2)
        pair('C20', n2, '%s of ' + nm + ' of ' + V1[:-1].replace('V', 'vector ') + ' and ' + V2[:-1].replace('V', 'vector ') + ' is that of the elements',
             Src(n2, single(n2, V1, V2, ex, '(%s)[k]' % ex, None, t1, t2, '(%s).size()' % ex)), Src(n2 + '_r', single(n2, V1, V2, None, None, rf, t1, t2)), gen(t1, t2), runs=20, quick=4, limit_s=10, prove_s=10)

LIM = 'std::numeric_limits<%s>'
for V, ty, t in (('VDx', 'double', False), ('VIx', 'int', True), ('ADx', 'double', False), ('AIx', 'int', True), ('VSx', 'short', True), ('ALx', 'long', True)):
    vn = V[:-1].replace('V', 'vector ').replace('A', 'valarray ')
    for nm, call, rf in (('plus_assign', 'num::plus_assign(t, s.b);', 's.a[k] + s.b[k]'),
                         ('min_assign', 'num::min_assign(t, s.b);', 's.b[k] < s.a[k] ? s.b[k] : s.a[k]'),
                         ('max_assign', 'num::max_assign(t, s.b);', 's.a[k] < s.b[k] ? s.b[k] : s.a[k]'),
                         ('as_zero', 't = num::as_zero(s.a);', '0'), ('as_one', 't = num::as_one(s.a);', '1'),
                         ('as_min', 't = num::as_min(s.a);', '-(std::numeric_limits<double>::max)()' if not t else '(std::numeric_limits<%s>::min)()' % ty),
                         ('as_max', 't = num::as_max(s.a);', '(std::numeric_limits<%s>::max)()' % ty)):
        n2 = 'el_%s_%s' % (nm, V)
        base = single(n2, V, V, None, None, rf, t, t)
        code_ = base[:base.index('double get_element')]
        if V[0] == 'A':
            # the conversions take the container through its indices
            code_ = code_
        pair('C20', n2, '%s of ' + nm + ' of ' + vn + ' is that of the elements',
             Src(n2, code_ + 'double get_element(S const &s, std::size_t const &k) { %s t(s.a); %s return k < s.a.size() && 0 != s.a.size() ? (double)t[k] : 0.; }\nstd::size_t get_size(S const &s) { %s t(s.a); %s return t.size(); }' % (V, call, V, call)),
             Src(n2 + '_r', base), gen(t, t), runs=20, quick=4, limit_s=10, prove_s=10)
for V1, V2, t1, t2 in (('ADx', 'ADx', False, False), ('AIx', 'ADx', True, False), ('AIx', 'AIx', True, True), ('ALx', 'ALx', True, True)):
    for nm, ex, rf in ops(V1, None, False):
        if nm == 'plus' and V1 != V2 or nm in ('minus', 'multiplies', 'divides') and V1 != V2:
            if nm != 'plus':
                continue
        n2 = 'el_%s_%s_%s' % (nm, V1, V2)
        R = 'double' if 'ADx' in (V1, V2) or nm.endswith('_d') or nm == 'fdiv_i' else 'int'
        pair('C20', n2, '%s of ' + nm + ' of ' + V1[:-1].replace('A', 'valarray ') + ' and ' + V2[:-1].replace('A', 'valarray ') + ' is that of the elements',
             Src(n2, single(n2, V1, V2, ex, None, None, t1, t2).replace('(double)(None)', '(double)((%s)[k])' % ex)), Src(n2 + '_r', single(n2, V1, V2, None, None, rf, t1, t2)), gen(t1, t2), runs=20, quick=4, limit_s=10, prove_s=10)


# sets of vectors: every component is the scalar statistic of that component
def vset(name, feat, V, el, w, get, key, ctor='', cp='', cov=False, ints=False):
    T = V
    up = 'void up(S &s, %s const &x%s) { s(%s%s%s); }'
    wd, wa = (', double const &w', ', weight = w') if w else ('', '')
    A = 'typedef accumulator_set<%s, stats<%s >%s > S;\nS mk(std::size_t n, std::size_t k%s) { return S(%s%s); }\n' % ('double' if cov else T, feat, ', double' if w else '', cp, ('covariate1' if cov else 'sample') + ' = ' + zero(T), ctor)
    A += 'void up(S &s, %s const &x%s) { s(%s%s); }\n' % (T, wd, '1.0' + wa + ', covariate1 = x' if cov else 'x' + wa, '')
    A += 'double get_%s(S const &s, std::size_t const &k) { return (double)(%s)[k]; }' % (key, get % 's')
    sfeat = feat.replace(V, el)
    B = 'struct S { accumulator_set<%s, stats<%s >%s > s; std::size_t k; S(std::size_t k_%s) : s(%s), k(k_) {} };\n' % ('double' if cov else el, sfeat, ', double' if w else '', cp, ctor.lstrip(', '))
    if not ctor:
        B = B.replace(': s(), k(k_)', ': s(), k(k_)')
    B += 'S mk(std::size_t n, std::size_t k%s) { return S(k%s); }\n' % (cp, ', c' if cp else '')
    B += 'void up(S &s, %s const &x%s) { s.s(%s); }\n' % (T, wd, '1.0' + wa + ', covariate1 = (%s)x[s.k]' % el if cov else '(%s)x[s.k]' % el + wa)
    B += 'double get_%s(S const &s, std::size_t const &k) { return (double)(%s); }' % (key, get.replace(V, el) % 's.s')
    return Src(name, A), Src(name + '_r', B)


def zero(T):
    return T + '(n)' if T[0] == 'V' else T + '(n)'


def vgen(w, ints, window):
    def g(rnd, i):
        n = rnd.randint(1, 3)
        k = rnd.randrange(n)
        env = {'n': F(n), 'k': F(k)}
        if window:
            env['c'] = F(rnd.randint(1, 3))
        h = [{'x': vec(rnd, n, ints)} for _ in range(rnd.randint(1, 6))]
        if w:
            for d, v in zip(h, wts(rnd, len(h))):
                d['w'] = v
        return env, h, lambda r, j, q: {}
    return g


X1 = '(boost::accumulators::%s)'
VSETS = [('sum', 'tag::sum', X1 % 'sum' + '(%s)', 'uw'), ('mean', 'tag::mean', X1 % 'mean' + '(%s)', 'uw'), ('imean', 'tag::mean(immediate)', X1 % 'mean' + '(%s)', 'uw'),
         ('min', 'tag::min', X1 % 'min' + '(%s)', 'uw'), ('max', 'tag::max', X1 % 'max' + '(%s)', 'uw'),
         ('moment2', 'tag::moment<2>', '(moment<2>)(%s)', 'uw'), ('moment3', 'tag::moment<3>', '(moment<3>)(%s)', 'uw'),
         ('lvariance', 'tag::variance(lazy)', X1 % 'variance' + '(%s)', 'uw'), ('variance', 'tag::variance', X1 % 'variance' + '(%s)', 'uw')]
for V, el, ints in (('VDx', 'double', False), ('VIx', 'int', True), ('ADx', 'double', False), ('AIx', 'int', True), ('VSx', 'short', True), ('ALx', 'long', True)):
    for nm, feat, get, kinds in VSETS:
        for w in (False, True):
            if (V, nm, w) in NOT_SUPPORTED:
                continue
            n2 = 'vs_%s%s_%s' % ('w' if w else '', nm, V)
            a, b = vset(n2, feat, V, el, w, get, nm)
            pair('C20', n2, '%s of ' + ('weighted ' if w else '') + 'samples of type ' + V[:-1].replace('V', 'vector ').replace('A', 'valarray ') + ' is that of each component', a, b, vgen(w, ints, False),
                 skip=lambda k, i, e: i < 1, runs=25, quick=4, limit_s=15, prove_s=15, view=('k', 'n', 'x'))
    for nm, feat, get in (('sumv', 'tag::{W}sum_of_variates<%s, tag::covariate1>' % V, 'extract_result<tag::{W}sum_of_variates<%s, tag::covariate1> >({s})' % V),
                          ('meanv', 'tag::mean_of_variates<%s, tag::covariate1>' % V, 'extract_result<tag::mean_of_variates<%s, tag::covariate1> >({s})' % V),
                          ('imeanv', 'tag::immediate_mean_of_variates<%s, tag::covariate1>' % V, 'extract_result<tag::immediate_mean_of_variates<%s, tag::covariate1> >({s})' % V)):
        for w in (False, True):
            if (V, nm, w) in NOT_SUPPORTED:
                continue
            n2 = 'vs_%s%s_%s' % ('w' if w else '', nm, V)
            W = 'weighted_' if w else ''
            a, b = vset(n2, feat.replace('{W}', W), V, el, w, get.replace('{W}', W).replace('{s}', '%s'), nm, cov=True)
            pair('C20', n2, '%s of ' + ('weighted ' if w else '') + 'variates of type ' + V[:-1].replace('V', 'vector ').replace('A', 'valarray ') + ' is that of each component', a, b, vgen(w, ints, False),
                 skip=lambda k, i, e: i < 1, runs=25, quick=4, limit_s=15, prove_s=15, view=('k', 'n', 'x'))


def work(cases, bad, arg):
    return work_pairs(cases, bad, PAIRS)


def main(pid):
    return main_pairs(pid, 'element', PAIRS, PRE, size=16)
