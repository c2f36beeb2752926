"""Composition: what a feature reports does not depend on what else is in the set."""
from checks.estim import *
from checks.estim import Src
import checks.tails as TL
import catalog

PRE = ''
PAIRS = []
WHAT = 'the set with the feature alone is the reference (%s)'


def pair(pid, name, rule, c, r, gen, **kw):
    PAIRS.append((pid, name, rule, c, r, gen, kw))


class Spec:
    def __init__(self, name, feats, gets, ctor='', cp='', args='', call='', params=None, obs=None, nmin=1, nmax=9, skip=None, ties=True, weighted_too=True, assume=None, cov=None):
        self.__dict__.update(locals())


def G(key, expr, rp=''):
    return 'double get_%s(S const &s%s) { return %s; }' % (key, ', ' + rp if rp else '', expr)


def ex(n):
    return G(n, '(boost::accumulators::%s)(s)' % n)


V1 = '<double, tag::covariate1>'
CV = dict(args=', double const &y', call=', covariate1 = y', cov='d')
RW = dict(ctor='tag::rolling_window::window_size = n', cp='std::size_t n', params=lambda r: {'n': F(r.randint(1, 4))})
P = 'double const &p'
K = 'std::size_t const &k'


def specs(w):
    W = 'weighted_' if w else ''
    L = []

    def add(*a, **k):
        L.append(Spec(*a, **k))
    add('count', ['tag::count'], [ex('count')])
    add('sum', ['tag::sum'], [ex('sum')])
    add('sumk', ['tag::sum(kahan)'], [ex('sum')])
    add('mean', ['tag::mean'], [ex('mean')])
    add('imean', ['tag::mean(immediate)'], [ex('mean')])
    add('min', ['tag::min'], [ex('min')])
    add('max', ['tag::max'], [ex('max')])
    for n in (2, 3, 5):
        add('moment%d' % n, ['tag::moment<%d>' % n], [G('moment', '(moment<%d>)(s)' % n)])
    add('lvariance', ['tag::variance(lazy)'], [ex('variance')])
    add('variance', ['tag::variance'], [ex('variance')])
    add('skewness', ['tag::skewness'], [ex('skewness')])
    add('kurtosis', ['tag::kurtosis'], [ex('kurtosis')])
    if not w:
        add('errmean', ['tag::error_of<tag::mean>'], [G('error', '(error_of<tag::mean>)(s)')])
        add('ierrmean', ['tag::error_of<tag::mean(immediate)>'], [G('error', 'extract_result<tag::error_of<tag::immediate_mean> >(s)')])
    else:
        add('sumw', ['tag::sum_of_weights'], [ex('sum_of_weights')])
        add('meanw', ['tag::mean_of_weights'], [ex('mean_of_weights')])
    add('varsum', ['tag::%ssum_of_variates%s' % (W, V1)], [G('sumv', 'extract_result<tag::%ssum_of_variates%s >(s)' % (W, V1))], **CV)
    add('varmean', ['tag::mean_of_variates' + V1], [G('meanv', 'extract_result<tag::mean_of_variates%s >(s)' % V1)], **CV)
    add('varimean', ['tag::immediate_mean_of_variates' + V1], [G('meanv', 'extract_result<tag::immediate_mean_of_variates%s >(s)' % V1)], **CV)
    add('covariance', ['tag::covariance' + V1], [ex('covariance')], **CV)
    if not w:
        add('rcount', ['tag::rolling_count'], [ex('rolling_count')], **RW)
        add('rsum', ['tag::rolling_sum'], [ex('rolling_sum')], **RW)
        add('rmean', ['tag::rolling_mean'], [ex('rolling_mean')], **RW)
        add('rlmean', ['tag::rolling_mean(lazy)'], [ex('rolling_mean')], **RW)
        add('rmoment3', ['tag::rolling_moment<3>'], [G('rmoment', '(rolling_moment<3>)(s)')], **RW)
        add('rvariance', ['tag::rolling_variance'], [ex('rolling_variance')], **RW)
        add('rlvariance', ['tag::rolling_variance(lazy)'], [ex('rolling_variance')], **RW)
    add('psq', ['tag::p_square_quantile'], [G('quantile', 'extract_result<tag::%sp_square_quantile >(s)' % W)], ctor='quantile_probability = p', cp='double p', params=prob, nmin=5, nmax=12, skip=late(lambda e: 5))
    add('qmedian', ['tag::%sp_square_quantile_for_median' % W], [G('median', 'extract_result<tag::%sp_square_quantile_for_median >(s)' % W)], nmin=5, nmax=12, skip=late(lambda e: 5))
    add('median', ['tag::median'], [ex('median')], nmin=5, nmax=12, skip=late(lambda e: 5))
    D = '(boost::accumulators::p_square_cumulative_distribution)(s)'
    add('pcd', ['tag::p_square_cumulative_distribution'], [G('x', '(%s.begin() + k)->first' % D, K), G('y', '(%s.begin() + k)->second' % D, K)], ctor='p_square_cumulative_distribution_num_cells = n', cp='std::size_t n', params=cells,
        obs=lambda r, e: {'k': F(r.randint(0, int(e['n'])))}, nmin=6, nmax=12, skip=late(lambda e: int(e['n']) + 1))
    D = '(boost::accumulators::density)(s)'
    DN = dict(ctor='density_cache_size = c, density_num_bins = n', cp='std::size_t c, std::size_t n', params=lambda r: {'c': F(r.randint(2, 5)), 'n': F(r.randint(1, 4))}, nmin=5, nmax=11, skip=late(lambda e: int(e['c'])))
    add('density', ['tag::density'], [G('x', '(%s.begin() + k)->first' % D, K), G('y', '(%s.begin() + k)->second' % D, K)], obs=lambda r, e: {'k': F(r.randint(0, int(e['n']) + 1))}, **DN)
    add('eps', ['tag::extended_p_square'], [G('at', '*((boost::accumulators::extended_p_square)(s).begin() + k)', K)], ctor='extended_p_square_probabilities = pr', cp='VD const &pr', params=probs,
        obs=lambda r, e: {'k': F(r.randrange(len(e['pr'].e)))}, nmin=11, nmax=14, skip=late(lambda e: 2 * len(e['pr'].e) + 3))
    for side in ('left', 'right'):
        CT = dict(ctor='tag::tail<%s>::cache_size = cap' % side, cp='std::size_t cap', params=lambda r: {'cap': F(r.choice((1, 2, 3, 4, 6)))}, ties=False)
        at = dict(obs=lambda r, e: {'k': F(0)})
        qp = dict(obs=lambda r, e: {'p': F(r.randint(1, 31), 32), 'j': F(0)})
        add('tail_' + side, ['tag::tail<%s>' % side], [G('at', '*((boost::accumulators::tail)(s).begin() + k)', K), 'std::size_t get_size(S const &s) { return (std::size_t)(boost::accumulators::tail)(s).size(); }'], **CT, **at)
        add('tailv_' + side, ['tag::tail_variate<double, tag::covariate1, %s>' % side], [G('at', '*((boost::accumulators::tail_variate)(s).begin() + k)', K)], **CT, **at, **CV)
        if w:
            add('tailw_' + side, ['tag::tail_weights<%s>' % side], [G('at', '*((boost::accumulators::tail_weights)(s).begin() + k)', K)], **CT, **at)
        add('tq_' + side, ['tag::tail_quantile<%s>' % side], [G('quantile', '(boost::accumulators::quantile)(s, quantile_probability = p)', P)], **CT, **qp)
        add('nctm_' + side, ['tag::non_coherent_tail_mean<%s>' % side], [G('nctm', '(boost::accumulators::non_coherent_tail_mean)(s, quantile_probability = p)', P)], **CT, **qp)
        if not w:
            add('ctm_' + side, ['tag::tail_quantile<%s>' % side, 'tag::coherent_tail_mean<%s>' % side], [G('ctm', '(boost::accumulators::coherent_tail_mean)(s, quantile_probability = p)', P)], **CT, **qp)
        TV = dict(ctor='pot_threshold_value = u', cp='double u', params=TL.thr)
        add('potq_' + side, ['tag::pot_quantile<%s>(with_threshold_value)' % side], [G('quantile', '(boost::accumulators::quantile)(s, quantile_probability = p)', P)], **TV, **qp)
    return L


def history(sp, w):
    def gen(rnd, i):
        env = sp.params(rnd) if sp.params else {}
        n = rnd.randint(sp.nmin, sp.nmax)
        xs = samples(rnd, n) if sp.ties else TL.distinct(rnd, n)
        h = [{'x': x} for x in xs]
        if w:
            for d, v in zip(h, wts(rnd, n)):
                d['w'] = v
        if sp.cov:
            for d in h:
                d['y'] = F(rnd.randint(-20, 30), 4)
        return env, h, (lambda r, j, k: sp.obs(r, env)) if sp.obs else (lambda r, j, k: {})
    return gen


def source(name, feats, sp, w, ctor='', call='', unit=False):
    wt = w or unit
    cc = ', '.join(x for x in (sp.ctor, ctor) if x)
    mk = 'S mk(%s) { return S(%s); }' % (sp.cp, cc) if cc else 'S mk() { return S(); }'
    up = 'void up(S &s, double const &x%s%s) { s(x%s%s%s); }' % (', double const &w' if w else '', sp.args, ', weight = w' if w else ', weight = 1.0' if unit else '', sp.call, call)
    return Src(name, 'typedef accumulator_set<double, stats<%s >%s > S;\n%s\n%s\n%s' % (', '.join(feats), ', double' if wt else '', mk, up, '\n'.join(sp.gets)))


# (name, features before, features after, constructor arguments, call arguments)
def contexts(sp, w):
    f = sp.feats
    own = ' '.join(f)
    A1, A2 = ['tag::kurtosis', 'tag::max', 'tag::count'], ['tag::variance', 'tag::min', 'tag::moment<5>', 'tag::sum']
    B1, B2 = ['tag::variance(immediate)', 'tag::min'], ['tag::skewness', 'tag::mean', 'tag::variance(lazy)']
    ctor = call = ''
    if not w:
        A1 = A1 + ['tag::error_of<tag::mean>']
        if 'rolling' not in own:
            B1 = B1 + ['tag::rolling_variance']
            B2 = B2 + ['tag::rolling_sum', 'tag::rolling_mean(lazy)']
            ctor = 'tag::rolling_window::window_size = 2'
        else:
            B1 = B1 + ['tag::rolling_variance(lazy)', 'tag::rolling_moment<2>']
            B2 = B2 + ['tag::rolling_sum', 'tag::rolling_count', 'tag::rolling_window']
    else:
        A1 = A1 + ['tag::mean_of_weights']
        B2 = B2 + ['tag::sum_of_weights', 'tag::mean_of_weights(immediate)']
    if 'covariate' not in own:
        B1 = B1 + ['tag::covariance' + V1]
        call = ', covariate1 = x'
    else:
        B2 = B2 + ['tag::covariance' + V1]
    if 'density' not in own:
        B2 = B2 + ['tag::density']
        ctor = ', '.join(x for x in (ctor, 'density_cache_size = 2, density_num_bins = 2') if x)
    if 'tail' not in own and 'pot_' not in own:
        B1 = B1 + ['tag::tail_quantile<right>']
        ctor = ', '.join(x for x in (ctor, 'tag::tail<right>::cache_size = 2') if x)
    if sp.name.startswith(('tail', 'tq', 'nctm', 'ctm')):
        side = sp.name.split('_')[1]
        B2 = B2 + (['tag::tail_weights<%s>' % side] if w else []) + (['tag::tail_variate<double, tag::covariate1, %s>' % side, 'tag::non_coherent_tail_mean<%s>' % side, 'tag::tail_quantile<%s>' % side])
    yield 'a', A1 + f + A2, '', ''
    yield 'b', B1 + f + B2, ctor, call
    yield 'c', list(reversed(B1 + f + B2)), ctor, call
    # statistics with parameters of their own
    D1, D2, ct = [], [], []
    if 'p_square_quantile' not in own or 'for_median' in own:
        D1.append('tag::p_square_quantile')
        ct.append('quantile_probability = 0.125')
    if 'cumulative' not in own:
        D2.append('tag::p_square_cumulative_distribution')
        ct.append('p_square_cumulative_distribution_num_cells = 3')
    if 'density' not in own:
        D1.append('tag::density')
        ct.append('density_cache_size = 3, density_num_bins = 2')
    if 'extended' not in own:
        D2.append('tag::extended_p_square')
        ct.append('extended_p_square_probabilities = VD(1, 0.125)')
    if not w and 'rolling' not in own:
        D1.append('tag::rolling_mean')
        ct.append('tag::rolling_window::window_size = 3')
    if 'tail' not in own and 'pot_' not in own:
        D2.append('tag::tail_quantile<left>')
        ct.append('tag::tail<left>::cache_size = 3')
    if 'median' not in own:
        D2.append('tag::median')
    yield 'd', D1 + f + D2, ', '.join(ct), ''


SAME = {  # other members of a context that provide the feature itself in another variant
}
for w in (False, True):
    for sp in specs(w):
        for cx, feats, ctor, call in contexts(sp, w):
            # the feature's own variant comes first, so that it is the one the set contains
            nm = 'cm_%s%s_%s' % ('w' if w else '', sp.name, cx)
            pair('C02', nm, '%s of ' + ('weighted ' if w else '') + sp.name + ' is the same in stats<' + ', '.join(x.replace('tag::', '') for x in feats) + '>',
                 source(nm, feats, sp, w, ctor, call), source(nm + '_r', sp.feats, sp, w), history(sp, w), skip=sp.skip, quick=4, runs=25, limit_s=12, prove_s=15)
# two variates in one set
for feat, key in (('mean_of_variates', 'meanv'), ('immediate_mean_of_variates', 'meanv')):
    for first in (1, 2):
        T = ['tag::%s<double, tag::covariate%d>' % (feat, k) for k in (first, 3 - first)]
        sp = Spec('two', T[:1], [G(key, 'extract_result<tag::%s<double, tag::covariate1> >(s)' % feat)], args=', double const &y', call=', covariate1 = y, covariate2 = x', cov='d')
        nm = 'cm_two_%s_%d' % (feat, first)
        pair('C02', nm, '%s of ' + feat + ' of the first variate is the same when that of the second variate is requested ' + ('after' if first == 1 else 'before') + ' it',
             source(nm, T, sp, False), source(nm + '_r', ['tag::%s<double, tag::covariate1>' % feat], sp, False), history(sp, False), runs=25, limit_s=12, prove_s=15)


def work(cases, bad, arg):
    return work_pairs(cases, bad, PAIRS)


def main(pid):
    return main_pairs(pid, 'compose', PAIRS, PRE, WHAT, size=4)
