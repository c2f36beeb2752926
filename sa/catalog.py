"""Catalogue of accumulator sets the analyses instantiate.

One entry is one accumulator_set type together with the ways a user constructs, feeds and reads it."""


class Entry:
    def __init__(self, name, feats, sample='double', weight=None, ctor='', call='', get=None, params='', ctor_params='', res_params='', tags=(), pre='', vol=False):
        self.name = name
        self.feats = feats
        self.sample = sample
        self.weight = weight
        self.ctor = ctor              # constructor argument list
        self.ctor_params = ctor_params
        self.call = call              # extra call arguments after the sample (and weight)
        self.params = params          # their declaration
        self.get = get or []          # (key, expression)
        self.res_params = res_params  # extraction parameters
        self.tags = set(tags)
        self.pre = pre

    def source(self, ser=True, extra=True):
        w = ', ' + self.weight if self.weight else ''
        L = ['namespace witness { namespace %s {' % self.name]
        if self.pre:
            L.append(self.pre)
        L.append('typedef accumulator_set<%s, stats<%s >%s > S;' % (self.sample, ', '.join(self.feats), w))
        L.append('S mk(%s) { return S(%s); }' % (self.ctor_params, self.ctor) if self.ctor else 'S mk() { return S(); }')
        ps = ['S &s', self.sample + ' const &x']
        ar = ['x']
        if self.weight:
            ps.append(self.weight + ' const &w')
            ar.append('weight = w')
        if self.params:
            ps.append(self.params)
        if self.call:
            ar.append(self.call)
        L.append('void up(%s) { s(%s); }' % (', '.join(ps), ', '.join(ar)))
        for ge in self.get:
            k, ex = ge[0], ge[1]
            rp = ge[2] if len(ge) > 2 else self.res_params
            L.append('decltype(auto) get_%s(S const &s%s) { return %s; }' % (k, ', ' + rp if rp else '', ex))
        L.append('void cp(S const &s, S &t) { t = s; }')
        L.append('S cc(S const &s) { return S(s); }')
        if ser:
            L.append('void save(S &s, sa_oarchive &ar) { s.serialize(ar, 0); }')
            L.append('void load(S &s, sa_iarchive &ar) { s.serialize(ar, 0); }')
        L.append('} }')
        return '\n'.join(L)


E = []


def add(*a, **k):
    e = Entry(*a, **k)
    E.append(e)
    return e


def g(*names):
    """getters by extractor name; name or (key, expr)"""
    out = []
    for n in names:
        if isinstance(n, tuple):
            out.append(n)
        else:
            out.append((n, '(boost::accumulators::%s)(s)' % n))
    return out


def xr(key, tag):
    return (key, 'extract_result<%s >(s)' % tag)


T = 'tag::'
# ---------------------------------------------------------------- basic statistics, unweighted
for S, sfx in (('double', ''), ('int', '_i')):
    add('count' + sfx, ['tag::count'], S, get=g('count'))
    add('sum' + sfx, ['tag::sum', 'tag::count'], S, get=g('sum', 'count'))
    add('sumk' + sfx, ['tag::sum(kahan)'], S, get=g('sum', 'sum_kahan'))
    add('mean' + sfx, ['tag::mean'], S, get=g('mean', 'count', 'sum'))
    add('imean' + sfx, ['tag::mean(immediate)'], S, get=g('mean', 'count'))
    add('min' + sfx, ['tag::min'], S, get=g('min'))
    add('max' + sfx, ['tag::max'], S, get=g('max'))
    for k in (1, 2, 3, 4, 5, 7) if sfx else range(1, 10):
        add('moment%d%s' % (k, sfx), ['tag::moment<%d>' % k], S, get=g('count', ('moment', '(moment<%d>)(s)' % k)))
    add('lvariance' + sfx, ['tag::variance(lazy)'], S, get=g('variance', 'mean', ('moment2', '(moment<2>)(s)'), 'count', 'sum'))
    add('variance' + sfx, ['tag::variance'], S, get=g('variance', 'mean', 'count'))
    add('skewness' + sfx, ['tag::skewness'], S, get=g('skewness', 'mean', 'count', 'sum', ('moment2', '(moment<2>)(s)'), ('moment3', '(moment<3>)(s)')))
    add('kurtosis' + sfx, ['tag::kurtosis'], S, get=g('kurtosis', 'mean', 'count', 'sum', ('moment2', '(moment<2>)(s)'), ('moment3', '(moment<3>)(s)'), ('moment4', '(moment<4>)(s)')))
    add('errmean' + sfx, ['tag::error_of<tag::mean>'], S, get=g(('error', '(error_of<tag::mean>)(s)'), 'variance', 'count'))
    add('ierrmean' + sfx, ['tag::error_of<tag::mean(immediate)>'], S, get=g(('error', 'extract_result<tag::error_of<tag::immediate_mean> >(s)'), 'variance', 'count'))
    CV = dict(params=S + ' const &v', call='covariate1 = v')
    V1 = '<%s, tag::covariate1>' % S
    add('varsum' + sfx, ['tag::sum_of_variates' + V1], S, get=[xr('sumv', 'tag::sum_of_variates' + V1)], **CV)
    add('varsumk' + sfx, ['tag::sum_of_variates_kahan' + V1], S, get=[xr('sumv', 'tag::sum_of_variates_kahan' + V1)], **CV)
    add('varmean' + sfx, ['tag::mean_of_variates' + V1], S, get=g('count') + [xr('sumv', 'tag::sum_of_variates' + V1), xr('meanv', 'tag::mean_of_variates' + V1)], **CV)
    add('varimean' + sfx, ['tag::immediate_mean_of_variates' + V1], S, get=g('count') + [xr('meanv', 'tag::immediate_mean_of_variates' + V1)], **CV)
    add('covariance' + sfx, ['tag::covariance' + V1], S, get=g('count', 'mean', 'covariance') + [xr('meanv', 'tag::mean_of_variates' + V1)], **CV)
    # rolling
    RW = dict(ctor='tag::rolling_window::window_size = n', ctor_params='std::size_t n')
    RO = [('wn', '(std::size_t)rolling_window(s).size()'), ('wat', '*(rolling_window(s).begin() + k)', 'std::size_t const &k')]
    add('rwindow1' + sfx, ['tag::rolling_window_plus1', 'tag::rolling_window'], S, get=[('window', 'rolling_window_plus1(s)'), ('w1n', '(std::size_t)rolling_window_plus1(s).size()'), ('w1at', '*(rolling_window_plus1(s).begin() + k)', 'std::size_t const &k')] + RO, tags=['rolling'], **RW)
    add('rwindow' + sfx, ['tag::rolling_window'], S, get=[('window', 'rolling_window(s)')] + RO, tags=['rolling'], **RW)
    add('rcount' + sfx, ['tag::rolling_count', 'tag::rolling_window'], S, get=g('rolling_count') + RO, tags=['rolling'], **RW)
    add('rsum' + sfx, ['tag::rolling_sum', 'tag::rolling_window'], S, get=g('rolling_sum') + RO, tags=['rolling'], **RW)
    add('rlmean' + sfx, ['tag::rolling_mean(lazy)', 'tag::rolling_window'], S, get=g('rolling_mean', 'rolling_count', 'rolling_sum') + RO, tags=['rolling'], **RW)
    add('rimean' + sfx, ['tag::rolling_mean', 'tag::rolling_window'], S, get=g('rolling_mean', 'rolling_count') + RO, tags=['rolling'], **RW)
    for k in (1, 2, 3, 4, 5, 6) if sfx else range(1, 10):
        add('rmoment%d%s' % (k, sfx), ['tag::rolling_moment<%d>' % k, 'tag::rolling_window'], S, get=g('rolling_count', ('rmoment', '(rolling_moment<%d>)(s)' % k)) + RO, tags=['rolling'], **RW)
    add('rlvariance' + sfx, ['tag::rolling_variance(lazy)', 'tag::rolling_window'], S, get=g('rolling_variance', 'rolling_count', 'rolling_mean', ('rmoment2', '(rolling_moment<2>)(s)')) + RO, tags=['rolling'], **RW)
    add('rvariance' + sfx, ['tag::rolling_variance', 'tag::rolling_window'], S, get=g('rolling_variance', 'rolling_count', 'rolling_mean') + RO, tags=['rolling'], **RW)
add('rvariance_all', ['tag::rolling_variance', 'tag::rolling_sum', 'tag::rolling_mean(lazy)', 'tag::rolling_window'], 'double', get=g('rolling_variance', 'rolling_count', 'rolling_sum', 'rolling_mean') + RO, tags=['rolling'], **RW)

# ---------------------------------------------------------------- weighted
for S, W, sfx in (('double', 'double', ''), ('int', 'int', '_i'), ('int', 'double', '_m')):
    k = dict(sample=S, weight=W, tags=['weighted'])
    add('wcount' + sfx, ['tag::count'], get=g('count'), **k)
    add('wsum' + sfx, ['tag::sum'], get=g('sum'), **k)
    add('wsumk' + sfx, ['tag::sum(kahan)'], get=g('sum'), **k)
    add('wmean' + sfx, ['tag::mean'], get=g('mean', 'sum', 'sum_of_weights'), **k)
    add('wimean' + sfx, ['tag::mean(immediate)'], get=g('mean', 'sum_of_weights'), **k)
    add('wmin' + sfx, ['tag::min'], get=g('min'), **k)
    add('wmax' + sfx, ['tag::max'], get=g('max'), **k)
    for n in (1, 2, 3, 4, 5) if sfx else range(1, 10):
        add('wmoment%d%s' % (n, sfx), ['tag::moment<%d>' % n], get=g('count', 'sum_of_weights', ('moment', '(moment<%d>)(s)' % n)), **k)
    add('wlvariance' + sfx, ['tag::variance(lazy)'], get=g('variance', 'mean', 'sum_of_weights', ('moment2', '(moment<2>)(s)')), **k)
    add('wvariance' + sfx, ['tag::variance'], get=g('variance', 'mean', 'count', 'sum_of_weights'), **k)
    add('wskewness' + sfx, ['tag::skewness'], get=g('skewness', 'mean', 'sum_of_weights', ('moment2', '(moment<2>)(s)'), ('moment3', '(moment<3>)(s)')), **k)
    add('wkurtosis' + sfx, ['tag::kurtosis'], get=g('kurtosis', 'mean', 'sum_of_weights', ('moment2', '(moment<2>)(s)'), ('moment3', '(moment<3>)(s)'), ('moment4', '(moment<4>)(s)')), **k)
    add('sumw' + sfx, ['tag::sum_of_weights'], get=g('sum_of_weights'), **k)
    add('sumwk' + sfx, ['tag::sum_of_weights(kahan)'], get=[xr('sum_of_weights', 'tag::sum_of_weights_kahan')], **k)
    add('meanw' + sfx, ['tag::mean_of_weights'], get=g('mean_of_weights', 'sum_of_weights', 'count'), **k)
    add('imeanw' + sfx, ['tag::mean_of_weights(immediate)'], get=g('count') + [xr('mean_of_weights', 'tag::immediate_mean_of_weights')], **k)
    k = dict(sample=S, weight=W, tags=['weighted'], params=S + ' const &v', call='covariate1 = v')
    V1 = '<%s, tag::covariate1>' % S
    add('wvarsum' + sfx, ['tag::weighted_sum_of_variates' + V1], get=[xr('sumv', 'tag::weighted_sum_of_variates' + V1)], **k)
    add('wvarsumk' + sfx, ['tag::weighted_sum_of_variates_kahan' + V1], get=[xr('sumv', 'tag::weighted_sum_of_variates_kahan' + V1)], **k)
    add('wvarmean' + sfx, ['tag::mean_of_variates' + V1], get=g('sum_of_weights') + [xr('sumv', 'tag::weighted_sum_of_variates' + V1), xr('meanv', 'tag::mean_of_variates' + V1)], **k)
    add('wvarimean' + sfx, ['tag::immediate_mean_of_variates' + V1], get=g('sum_of_weights') + [xr('meanv', 'tag::immediate_mean_of_variates' + V1)], **k)
    add('wcovariance' + sfx, ['tag::covariance' + V1], get=g('count', 'sum_of_weights', 'mean', 'covariance') + [xr('meanv', 'tag::mean_of_variates' + V1)], **k)

# ---------------------------------------------------------------- quantile estimators
for w, pre in ((None, ''), ('double', 'w')):
    k = dict(weight=w, tags=['weighted'] if w else [])
    QP = dict(res_params='double const &p')
    q = [('quantile', '(boost::accumulators::quantile)(s, quantile_probability = p)')]
    add(pre + 'psq', ['tag::p_square_quantile'], ctor='quantile_probability = p', ctor_params='double p', get=[xr('quantile', 'tag::%sp_square_quantile' % ('weighted_' if w else '')), ('count', '(boost::accumulators::count)(s)')], **k)
    if not w:
        add('psqm', ['tag::p_square_quantile_for_median'], get=[xr('quantile', 'tag::p_square_quantile_for_median')], **k)
    else:
        add('wpsqm', ['tag::weighted_p_square_quantile_for_median'], get=[xr('quantile', 'tag::weighted_p_square_quantile_for_median')], **k)
    add(pre + 'pcd', ['tag::p_square_cumulative_distribution'], ctor='p_square_cumulative_distribution_num_cells = n', ctor_params='std::size_t n', get=[('cdf', '(boost::accumulators::p_square_cumulative_distribution)(s)')], **k)
    DN = dict(ctor='density_cache_size = c, density_num_bins = n', ctor_params='std::size_t c, std::size_t n')
    add(pre + 'density', ['tag::density'], get=[('density', '(boost::accumulators::density)(s)'), ('min', '(boost::accumulators::min)(s)'), ('max', '(boost::accumulators::max)(s)')], **DN, **k)
    add(pre + 'median', ['tag::median'], get=g('median'), **k)
    add(pre + 'dmedian', ['tag::median(with_density)'], get=g('median'), **DN, **k)
    add(pre + 'pcdmedian', ['tag::median(with_p_square_cumulative_distribution)'], ctor='p_square_cumulative_distribution_num_cells = n', ctor_params='std::size_t n', get=g('median'), **k)
    XP = dict(ctor='extended_p_square_probabilities = pr', ctor_params='VD const &pr')
    add(pre + 'eps', ['tag::extended_p_square'], get=[('eps', '(boost::accumulators::extended_p_square)(s)')], **XP, **k)
    add(pre + 'epsq', ['tag::extended_p_square_quantile'], get=q, **XP, **QP, **k)
    add(pre + 'epsqq', ['tag::extended_p_square_quantile(quadratic)'], get=q, **XP, **QP, **k)

# ---------------------------------------------------------------- tails
for LR, kw, c in (('left', 'left_tail_cache_size', 'l'), ('right', 'right_tail_cache_size', 'r')):
    for w, pre in ((None, ''), ('double', 'w')):
        for S, sfx in (('double', ''), ('int', '_i')):
            if w and S == 'int':
                continue
            base = dict(sample=S, weight=w, tags=['tail'] + (['weighted'] if w else []))
            CT = dict(ctor=kw + ' = n', ctor_params='std::size_t n')
            QP = dict(res_params='double const &p')
            nm = pre + c
            qx = ('quantile', '(boost::accumulators::quantile)(s, quantile_probability = p)')
            wt = 'weighted_' if w else ''
            TO = [('tn', '(std::size_t)(boost::accumulators::tail)(s).size()'), ('tat', '*((boost::accumulators::tail)(s).begin() + k)', 'std::size_t const &k')]
            add(nm + 'tail' + sfx, ['tag::tail<%s>' % LR], get=[('tail', '(boost::accumulators::tail)(s)')] + TO, **CT, **base)
            if w:
                add(nm + 'tailw', ['tag::tail_weights<%s>' % LR], get=[('tailw', '(boost::accumulators::tail_weights)(s)'), ('tail', '(boost::accumulators::tail)(s)'), ('wn', '(std::size_t)(boost::accumulators::tail_weights)(s).size()'), ('wat', '*((boost::accumulators::tail_weights)(s).begin() + k)', 'std::size_t const &k')] + TO, **CT, **base)
            add(nm + 'tailv' + sfx, ['tag::tail_variate<double, tag::covariate1, %s>' % LR], get=[('tailv', '(boost::accumulators::tail_variate)(s)'), ('tail', '(boost::accumulators::tail)(s)'), ('vn', '(std::size_t)(boost::accumulators::tail_variate)(s).size()'), ('vat', '*((boost::accumulators::tail_variate)(s).begin() + k)', 'std::size_t const &k')] + TO, params='double const &v', call='covariate1 = v', **CT, **base)
            add(nm + 'tq' + sfx, ['tag::tail_quantile<%s>' % LR], get=[qx], **CT, **base, **QP)
            add(nm + 'nctm' + sfx, ['tag::non_coherent_tail_mean<%s>' % LR], get=[('nctm', '(boost::accumulators::non_coherent_tail_mean)(s, quantile_probability = p)')], **CT, **base, **QP)
            if not w:
                add(nm + 'ctm' + sfx, ['tag::tail_quantile<%s>' % LR, 'tag::coherent_tail_mean<%s>' % LR], get=[('ctm', '(boost::accumulators::coherent_tail_mean)(s, quantile_probability = p)'), ('nctm', '(boost::accumulators::non_coherent_tail_mean)(s, quantile_probability = p)'), qx, ('count', '(boost::accumulators::count)(s)')], **CT, **base, **QP)
            if S == 'double':
                VV = dict(params='VD const &v', call='covariate1 = v')
                add(nm + 'tvma', ['tag::tail_variate_means<%s, VD, tag::covariate1>(absolute)' % LR], get=[('tvm', '(boost::accumulators::tail_variate_means)(s, quantile_probability = p)')], **CT, **base, **QP, **VV)
                add(nm + 'tvmr', ['tag::tail_variate_means<%s, VD, tag::covariate1>(relative)' % LR], get=[('tvm', '(boost::accumulators::relative_tail_variate_means)(s, quantile_probability = p)')], **CT, **base, **QP, **VV)
                TV = dict(ctor='pot_threshold_value = t', ctor_params='double t')
                TP = dict(ctor='%s = n, pot_threshold_probability = t' % kw, ctor_params='std::size_t n, double t')
                fit = [xr('fit', 'tag::%speaks_over_threshold<%s>' % (wt, LR))]
                fitp = [xr('fit', 'tag::%speaks_over_threshold_prob<%s>' % (wt, LR))]
                add(nm + 'pot', ['tag::%speaks_over_threshold<%s>' % (wt, LR)], get=fit, **TV, **base)
                add(nm + 'potp', ['tag::%speaks_over_threshold_prob<%s>' % (wt, LR)], get=fitp, **TP, **base)
                add(nm + 'potq', ['tag::pot_quantile<%s>(with_threshold_value)' % LR], get=[qx] + fit, **TV, **base, **QP)
                add(nm + 'potpq', ['tag::pot_quantile<%s>(with_threshold_probability)' % LR], get=[qx] + fitp, **TP, **base, **QP)
                tm = ('tmean', '(boost::accumulators::tail_mean)(s, quantile_probability = p)')
                add(nm + 'pottm', ['tag::pot_tail_mean<%s>(with_threshold_value)' % LR], get=[tm, qx] + fit, **TV, **base, **QP)
                add(nm + 'potptm', ['tag::pot_tail_mean<%s>(with_threshold_probability)' % LR], get=[tm, qx] + fitp, **TP, **base, **QP)

for S, sfx in (('float', 'f'), ('unsigned', 'u'), ('long long', 'll'), ('short', 'h'), ('unsigned char', 'uc')):
    for w in (None, 'double'):
        k = dict(sample=S, weight=w, tags=['minmax'] + (['weighted'] if w else []))
        add(('w' if w else '') + 'min_' + sfx, ['tag::min'], get=g('min'), **k)
        add(('w' if w else '') + 'max_' + sfx, ['tag::max'], get=g('max'), **k)

# further arithmetic types (for the check of integral statistics)
X = []


def clone(e, sfx, sample, weight):
    import re

    def ty(t):
        return re.sub(r'\b%s\b(?= const &v|, tag::)' % re.escape(e.sample), sample, t)
    n = Entry(e.name + sfx, [ty(f) for f in e.feats], sample, weight, e.ctor, e.call, [tuple([q[0], ty(q[1])] + list(q[2:])) for q in e.get], ty(e.params), e.ctor_params, e.res_params, e.tags, e.pre)
    X.append(n)


_b = {e.name: e for e in E}
for _n in ('sum', 'mean', 'imean', 'moment2', 'moment3', 'lvariance', 'variance', 'skewness', 'kurtosis', 'errmean', 'varmean', 'varimean', 'covariance', 'rlmean', 'rimean', 'rmoment2', 'rlvariance', 'rvariance'):
    for _s, _t in (('_l', 'long'), ('_u', 'unsigned long'), ('_y', 'unsigned'), ('_s', 'short'), ('_c', 'signed char'), ('_f', 'float')):
        clone(_b[_n], _s, _t, None)
for _n in ('wsum', 'wmean', 'wimean', 'wmoment2', 'wlvariance', 'wvariance', 'wskewness', 'wkurtosis', 'meanw', 'imeanw', 'wvarmean', 'wvarimean', 'wcovariance'):
    for _s, _t, _w in (('_l', 'long', 'long'), ('_d', 'double', 'int'), ('_u', 'unsigned', 'unsigned'), ('_s', 'short', 'long'), ('_f', 'float', 'int')):
        clone(_b[_n], _s, _t, _w)
BY = {e.name: e for e in E}
if __name__ == '__main__':
    import sys
    print(len(E))
    print('#include "common.hpp"')
    for e in E:
        print(e.source())
