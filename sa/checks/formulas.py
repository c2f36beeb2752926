"""Defining equations of the closed-form statistics, as relations between observations of a set
before and after one update with an arbitrary sample from an arbitrary state."""
from relenv import *
from models import power, limit


def sq(t):
    return mul(t, t)


def rt(t):
    r = fn('sqrt', t)
    r.attr = {'num': True, 'nn': True}
    return r


def pos(t):
    return lt(ZERO, t)


def ge(t, k):
    return not_(lt(t, const(k)))


def avg(e, key, val, n, rule):
    """running average: key' = (key*n + val)/(n+1)"""
    nb = e.B(n)
    return [(rule, e.A(key), (e.B(key) * nb + val) / (nb + 1), [ge(nb, 1)]),
            (rule + ', first sample', e.F(key), val, [])]


def wavg(e, key, val, rule):
    W = e.B('sum_of_weights')
    return [(rule, e.A(key), (e.B(key) * W + val * e.w) / (W + e.w), [pos(W), pos(e.w)]),
            (rule + ', first sample', e.F(key), val, [pos(e.w)])]


def total(e, key, val, rule):
    return [(rule, e.A(key), e.B(key) + val, []), (rule + ', new set', e.I(key), ZERO, [])]


def count(e):
    return total(e, 'count', ONE, 'count counts every sample once')


def sums(e):
    return total(e, 'sum', e.x, 'sum adds every sample once') + count(e)


def mean(e):
    return avg(e, 'mean', e.x, 'count', 'mean is the arithmetic mean') + count(e) + (sums(e) if 'get_sum' in e.c.fns else [])


def moment(e, n):
    return avg(e, 'moment', e.x ** n, 'count', 'moment<%d> is the mean of the %d-th powers' % (n, n)) + count(e)


def moments(e, ks):
    r = []
    for k in ks:
        r += avg(e, 'moment%d' % k, e.x ** k, 'count', 'moment<%d> is the mean of the %d-th powers' % (k, k))
    return r


def lvariance(e):
    return [('lazy variance is the second moment minus the squared mean', e.B('variance'), e.B('moment2') - sq(e.B('mean')), [ge(e.B('count'), 1)])] + mean(e) + moments(e, [2])


def vrec(e, key, da, db, rule):
    n = e.B('count')
    return [(rule, e.A(key), e.B(key) * n / (n + 1) + da * db * n / sq(n + 1), [ge(n, 1)]), (rule + ', first sample', e.F(key), ZERO, [])]


def variance(e):
    d = e.x - e.B('mean')
    return vrec(e, 'variance', d, d, 'variance is the mean squared deviation from the mean') + mean(e)


def skew(e, cnt):
    m, m2, m3 = e.B('mean'), e.B('moment2'), e.B('moment3')
    s = m2 - sq(m)
    return [('skewness is the third central moment over the cubed standard deviation', e.B('skewness'), (m3 - 3 * m2 * m + 2 * m ** 3) / (s * rt(s)), [pos(e.B(cnt)), pos(s)])]


def kurt(e, cnt):
    m, m2, m3, m4 = e.B('mean'), e.B('moment2'), e.B('moment3'), e.B('moment4')
    s = m2 - sq(m)
    return [('kurtosis is the fourth central moment over the squared variance, minus 3', e.B('kurtosis'), (m4 - 4 * m3 * m + 6 * m2 * m ** 2 - 3 * m ** 4) / sq(s) - 3, [pos(e.B(cnt)), pos(s)])]


def skewness(e):
    return skew(e, 'count') + mean(e) + moments(e, [2, 3])


def kurtosis(e):
    return kurt(e, 'count') + mean(e) + moments(e, [2, 3, 4])


def errmean(e):
    n = e.B('count')
    return [('error of the mean is sqrt(variance/(count-1))', e.B('error'), rt(e.B('variance') / (n - 1)), [ge(n, 2), pos(e.B('variance'))])] + count(e)


def varsum(e):
    return total(e, 'sumv', e.v, 'sum of variates adds every variate once')


def varmean(e):
    return avg(e, 'meanv', e.v, 'count', 'mean of variates is their arithmetic mean') + count(e) + (varsum(e) if 'get_sumv' in e.c.fns else [])


def covariance(e):
    return vrec(e, 'covariance', e.x - e.B('mean'), e.v - e.B('meanv'), 'covariance is the mean product of deviations') + mean(e) + varmean(e)


# ---------------------------------------------------------------- weighted
def sumw(e):
    return total(e, 'sum_of_weights', e.w, 'sum of weights adds every weight once')


def wsum(e):
    return total(e, 'sum', e.x * e.w, 'weighted sum adds sample times weight')


def wmean(e):
    return wavg(e, 'mean', e.x, 'weighted mean is the weighted average') + sumw(e) + (wsum(e) if 'get_sum' in e.c.fns else [])


def wmoment(e, n):
    return wavg(e, 'moment', e.x ** n, 'weighted moment<%d> is the weighted average of the %d-th powers' % (n, n)) + sumw(e) + (count(e) if 'get_count' in e.c.fns else [])


def wmoments(e, ks):
    r = []
    for k in ks:
        r += wavg(e, 'moment%d' % k, e.x ** k, 'weighted moment<%d> is the weighted average of the %d-th powers' % (k, k))
    return r


def wvrec(e, key, da, db, rule):
    n, W, w = e.B('count'), e.B('sum_of_weights'), e.w
    return [(rule, e.A(key), e.B(key) * W / (W + w) + da * db * w * W / sq(W + w), [ge(n, 1), pos(W), pos(w)]), (rule + ', first sample', e.F(key), ZERO, [pos(w)])]


def wlvariance(e):
    return [('lazy weighted variance is the second weighted moment minus the squared weighted mean', e.B('variance'), e.B('moment2') - sq(e.B('mean')), [pos(e.B('sum_of_weights'))])] + wmean(e) + wmoments(e, [2])


def wvariance(e):
    d = e.x - e.B('mean')
    return wvrec(e, 'variance', d, d, 'weighted variance is the weighted mean squared deviation') + wmean(e) + count(e)


def wskewness(e):
    return skew(e, 'sum_of_weights') + wmean(e) + wmoments(e, [2, 3])


def wkurtosis(e):
    return kurt(e, 'sum_of_weights') + wmean(e) + wmoments(e, [2, 3, 4])


def meanw(e):
    return avg(e, 'mean_of_weights', e.w, 'count', 'mean of weights is their arithmetic mean') + count(e)


def wvarsum(e):
    return total(e, 'sumv', e.v * e.w, 'weighted sum of variates adds variate times weight')


def wvarmean(e):
    return wavg(e, 'meanv', e.v, 'weighted mean of variates is their weighted average') + sumw(e) + (wvarsum(e) if 'get_sumv' in e.c.fns else [])


def wcovariance(e):
    return wvrec(e, 'covariance', e.x - e.B('mean'), e.v - e.B('meanv'), 'weighted covariance is the weighted mean product of deviations') + wmean(e) + wvarmean(e) + count(e)


SPEC = dict(count=count, sum=sums, mean=mean, imean=mean, lvariance=lvariance, variance=variance, skewness=skewness, kurtosis=kurtosis,
            errmean=errmean, ierrmean=errmean, varsum=varsum, varmean=varmean, varimean=varmean, covariance=covariance)
for _k in range(1, 10):
    SPEC['moment%d' % _k] = (lambda n: lambda e: moment(e, n))(_k)
WSPEC = dict(wcount=count, wsum=wsum, wmean=wmean, wimean=wmean, wlvariance=wlvariance, wvariance=wvariance, wskewness=wskewness, wkurtosis=wkurtosis,
             sumw=sumw, meanw=meanw, imeanw=meanw, wvarsum=wvarsum, wvarmean=wvarmean, wvarimean=wvarmean, wcovariance=wcovariance)
for _k in range(1, 10):
    WSPEC['wmoment%d' % _k] = (lambda n: lambda e: wmoment(e, n))(_k)
ALL = dict(SPEC)
ALL.update(WSPEC)


SFX = ('_i', '_m', '_l', '_u', '_y', '_s', '_c', '_f', '_d')


def base(name):
    return name[:-2] if name[-2:] in SFX else name


def compile_failures(rep, bad):
    for n, errs in bad.items():
        rep.bad('%s: the set compiles' % n, errs[0] if errs else n, 'the accumulator set of witness %s no longer compiles: %s' % (n, ' | '.join(errs)[:500]), 'compiles')


def eval_rules(rep, c, rules, e, kind='equation'):
    from reach import Confirm
    rep.confirm = Confirm(c)
    for rule, lhs, rhs, assume in rules:
        rep.same('%s: %s' % (c.name, rule), e.where(), lhs, rhs, assume, kind=kind)
    rep.confirm = None


def exact(c):
    import interp
    interp.EXACT.clear()
    if c.name[-2:] in ('_s', '_c', '_f', '_y', '_u'):
        e = [x for x in catalog.X if x.name == c.name]
        if e:
            interp.EXACT.update({'unsigned int' if t == 'unsigned' else t for t in (e[0].sample, e[0].weight) if t not in (None, 'int', 'long', 'double')})


def run(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        exact(c)
        e = Env(c, rep)
        try:
            rules = ALL[base(c.name)](e)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
            continue
        rep.units += 1
        seen = set()
        rules = [r for r in rules if not (r[0] in seen or seen.add(r[0]))]
        eval_rules(rep, c, rules, e)
        for it in e.its:
            rep.see(it)
    return rep


def entries(which):
    out = []
    for e in catalog.E + (catalog.X if which == 'integral' else []):
        b = base(e.name)
        ints = e.name != b
        if which == 'unweighted' and b in SPEC and not ints:
            out.append(e)
        if which == 'weighted' and b in WSPEC and not ints:
            out.append(e)
        if which == 'integral' and b in ALL and ints:
            out.append(e)
    return out


def main(pid, which, rule, size=6, min_obl=40):
    t0 = time.time()
    rep = Rep()
    for r in pmap('checks.formulas', 'run', entries(which), size=size):
        rep.merge(r)
    if which == 'integral':
        for r in pmap('checks.rolling', 'run', [e for e in catalog.E + catalog.X if 'rolling' in e.tags and base(e.name) != e.name], size=4):
            rep.merge(r)
    return finish(pid, rep, t0, rule, assumptions=ASSUME, min_obl=min_obl)


ASSUME = ['exact real arithmetic: rounding, overflow and NaN are outside the property',
          'relations are shown for every state and sample; count >= 1 (or positive total weight) before the update, and separately for the first sample',
          'library models for std::vector, boost::circular_buffer, <cmath> and <algorithm> in sa/models.py']
