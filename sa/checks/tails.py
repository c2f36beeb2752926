"""Tail caches and the statistics computed from them: refinement of reference programs."""
from checks.estim import *
from checks import estim

PRE = r'''#include "common.hpp"
namespace refp {
typedef std::vector<double> VD; typedef std::vector<std::size_t> VI;
// the `cap` most extreme samples of one side, with what belongs to them, most extreme first
template<bool L> bool ahead(double const &a, double const &b) { return L ? a < b : a > b; }
template<bool L> struct by { VD const &s; by(VD const &v) : s(v) {} bool operator()(std::size_t a, std::size_t b) const { return ahead<L>(s[a], s[b]); } };
template<bool L> struct T
{
    std::size_t cnt; double sw; mutable bool sorted; mutable VI idx; VD samples; VD w; VD cov; std::vector<VD> vcov; mutable VD means;
};
template<bool L> T<L> t_make(std::size_t cap)
{
    T<L> t;
    t.cnt = 0; t.sw = 0.; t.sorted = false; t.samples = VD(cap, 0.); t.w = VD(cap, 0.); t.cov = VD(cap, 0.); t.vcov = std::vector<VD>(cap, VD());
    return t;
}
template<bool L> void t_store(T<L> &t, std::size_t slot, double const &x, double const &w, double const &c, VD const &v)
{
    t.samples[slot] = x;
    std::push_heap(t.idx.begin(), t.idx.end(), by<L>(t.samples));
    t.sorted = false;
    t.w[slot] = w;
    t.cov[slot] = c;
    t.vcov[slot] = v;
}
template<bool L> void t_put(T<L> &t, double const &x, double const &w, double const &c, VD const &v)
{
    ++t.cnt;
    t.sw += w;
    if(t.idx.size() < t.samples.size())
    {
        t.idx.push_back(t.idx.size());
        t_store(t, t.idx.back(), x, w, c, v);
    }
    else if(ahead<L>(x, t.samples[t.idx[0]]))
    {
        std::pop_heap(t.idx.begin(), t.idx.end(), by<L>(t.samples));
        t_store(t, t.idx.back(), x, w, c, v);
    }
}
template<bool L> void t_up(T<L> &t, double const &x) { t_put(t, x, 0., 0., VD()); }
template<bool L> void t_upw(T<L> &t, double const &x, double const &w) { t_put(t, x, w, 0., VD()); }
template<bool L> void t_upc(T<L> &t, double const &x, double const &c) { t_put(t, x, 0., c, VD()); }
template<bool L> void t_upwc(T<L> &t, double const &x, double const &w, double const &c) { t_put(t, x, w, c, VD()); }
template<bool L> void t_upv(T<L> &t, double const &x, VD const &c) { t_put(t, x, 0., 0., c); }
template<bool L> void t_upwv(T<L> &t, double const &x, double const &w, VD const &c) { t_put(t, x, w, 0., c); }
template<bool L> void t_sort(T<L> const &t)
{
    if(!t.sorted)
    {
        std::sort_heap(t.idx.begin(), t.idx.end(), by<L>(t.samples));
        std::reverse(t.idx.begin(), t.idx.end());
        t.sorted = true;
    }
}
template<bool L> std::size_t t_idx(T<L> const &t, std::size_t k) { t_sort(t); return t.idx[t.idx.size() - 1 - k]; }
template<bool L> std::size_t t_size(T<L> const &t) { t_sort(t); return t.idx.size(); }
template<bool L> double frac(double p) { return L ? p : 1. - p; }
template<bool L> std::size_t t_n(T<L> const &t, double p) { return static_cast<std::size_t>(std::ceil(t.cnt * frac<L>(p))); }
inline double nan() { return std::numeric_limits<double>::quiet_NaN(); }
template<bool L> double t_quantile(T<L> const &t, double p)
{
    std::size_t n = t_n(t, p);
    if(0 < n && n < t_size(t)) return t.samples[t_idx(t, n - 1)];
    return nan();
}
template<bool L> int i_quantile(T<L> const &t, double p)
{
    std::size_t n = t_n(t, p);
    if(0 < n && n < t_size(t)) return (int)t.samples[t_idx(t, n - 1)];
    throw std::runtime_error("not in the tail");
}
// mean of the n most extreme samples
template<bool L> double t_nctm(T<L> const &t, double p)
{
    std::size_t n = t_n(t, p);
    if(n > t_size(t)) return nan();
    double s = 0.;
    for(std::size_t i = 0; i < n; ++i) s = s + t.samples[t_idx(t, i)];
    return s / n;
}
template<bool L> double t_ctm(T<L> const &t, double p)
{
    std::size_t n = t_n(t, p);
    return t_nctm(t, p) + t_quantile(t, p) / n * (frac<L>(p) - double(n) / t.cnt);
}
// number of most extreme samples whose weights reach the wanted share; size + 1 when the cache is too small
template<bool L> std::size_t w_n(T<L> const &t, double p, bool one, double &sum)
{
    double want = t.sw * frac<L>(p);
    std::size_t n = 0;
    sum = 0.;
    while(sum < want || (one && n == 0))
    {
        if(n >= t.idx.size()) return t.idx.size() + 1;
        sum += t.w[t_idx(t, n)];
        ++n;
    }
    return n;
}
template<bool L> double w_quantile(T<L> const &t, double p)
{
    double sum;
    std::size_t n = w_n(t, p, true, sum);
    return n > t.idx.size() ? nan() : t.samples[t_idx(t, n - 1)];
}
template<bool L> int iw_quantile(T<L> const &t, double p)
{
    double sum;
    std::size_t n = w_n(t, p, true, sum);
    if(n > t.idx.size()) throw std::runtime_error("not in the tail");
    return (int)t.samples[t_idx(t, n - 1)];
}
template<bool L> double w_nctm(T<L> const &t, double p)
{
    double sum;
    std::size_t n = w_n(t, p, false, sum);
    if(n > t.idx.size()) return nan();
    t_sort(t);
    double s = 0.;
    for(std::size_t i = 0; i < n; ++i) s = s + t.samples[t_idx(t, i)] * t.w[t_idx(t, i)];
    return s / sum;
}
// mean of component j of the variates of the n most extreme samples; relative: divided by the tail mean
template<bool L> double t_vmean(T<L> const &t, double p, std::size_t j, bool rel)
{
    std::size_t n = t_n(t, p);
    if(n >= t_size(t)) return nan();
    double s = 0.;
    for(std::size_t i = 0; i < n; ++i) s += t.vcov[t_idx(t, i)][j];
    return s / (n * (rel ? t_nctm(t, p) : 1.));
}
template<bool L> double w_vmean(T<L> const &t, double p, std::size_t j, bool rel)
{
    double sum;
    std::size_t n = w_n(t, p, false, sum);
    if(n > t.idx.size()) return nan();
    t_sort(t);
    double s = 0.;
    for(std::size_t i = 0; i < n; ++i) s += t.vcov[t_idx(t, i)][j] * t.w[t_idx(t, i)];
    return s / (sum * (rel ? w_nctm(t, p) : 1.));
}
// ---------------------------------------------------------------- peaks over threshold: generalized Pareto fit by moments
template<bool L> struct P { std::size_t Nu; double w_sum, threshold, mu, sigma2, threshold_probability; mutable double fit0, fit1, fit2; mutable bool is_dirty; T<L> t; };
template<bool L> double mirror() { return L ? -1. : 1.; }
// share: part of the distribution beyond the threshold u
template<bool L> void fit(P<L> const &s, double share, double u, double mu, double m2)
{
    double k = (mu - u) * (mu - u) / (m2 - mu * mu);
    double xi = 0.5 * (1. - k);
    double beta = 0.5 * (mu - u) * (1. + k);
    double bb = beta * std::pow(share, xi);
    s.fit0 = u - bb * (std::pow(share, -xi) - 1.) / xi;
    s.fit1 = bb;
    s.fit2 = xi;
}
template<bool L> P<L> p_make(double u, double prob, std::size_t cap) { P<L> s; s.Nu = 0; s.w_sum = 0.; s.mu = 0.; s.sigma2 = 0.; s.threshold = mirror<L>() * u; s.threshold_probability = prob; s.t = t_make<L>(cap); s.is_dirty = true; s.fit0 = 0.; s.fit1 = 0.; s.fit2 = 0.; return s; }
template<bool L> void p_up(P<L> &s, double const &x)
{
    ++s.t.cnt;
    s.is_dirty = true;
    if(mirror<L>() * x > s.threshold) { s.mu += x; s.sigma2 += x * x; ++s.Nu; }
}
template<bool L> void wp_up(P<L> &s, double const &x, double const &w)
{
    s.t.sw += w;
    s.is_dirty = true;
    if(mirror<L>() * x > s.threshold) { s.mu += w * x; s.sigma2 += w * x * x; s.w_sum += w; }
}
template<bool L> void pp_up(P<L> &s, double const &x) { s.is_dirty = true; t_up(s.t, x); }
template<bool L> void wpp_up(P<L> &s, double const &x, double const &w) { s.is_dirty = true; t_upw(s.t, x, w); }
template<bool L> bool p_fit(P<L> const &s)
{
    if(s.is_dirty)
    {
        s.is_dirty = false;
        double cnt = s.t.cnt;
        fit(s, 1. - (cnt - s.Nu) / cnt, s.threshold, mirror<L>() * s.mu / s.Nu, s.sigma2 / s.Nu);
    }
    return true;
}
template<bool L> bool wp_fit(P<L> const &s)
{
    if(s.is_dirty)
    {
        s.is_dirty = false;
        fit(s, 1. - (s.t.sw - s.w_sum) / s.t.sw, s.threshold, mirror<L>() * s.mu / s.w_sum, s.sigma2 / s.w_sum);
    }
    return true;
}
// threshold: the sample at which the wanted share of the samples is reached; false: it is not cached
template<bool L> bool pp_fit(P<L> const &s)
{
    if(s.is_dirty)
    {
        std::size_t n = t_n(s.t, s.threshold_probability);
        if(n == 0 || n >= t_size(s.t)) return false;
        double u = s.t.samples[t_idx(s.t, n - 1)] * mirror<L>();
        double mu = 0., m2 = 0.;
        for(std::size_t i = 0; i < n; ++i) { mu += s.t.samples[t_idx(s.t, i)]; m2 += s.t.samples[t_idx(s.t, i)] * s.t.samples[t_idx(s.t, i)]; }
        fit(s, frac<L>(s.threshold_probability), u, mirror<L>() * mu / n, m2 / n);
        s.is_dirty = false;
    }
    return true;
}
template<bool L> bool wpp_fit(P<L> const &s)
{
    if(s.is_dirty)
    {
        double want = s.t.sw * frac<L>(s.threshold_probability), sum = 0., mu = 0., m2 = 0.;
        std::size_t n = 0;
        while(sum < want || n == 0)
        {
            if(n >= t_size(s.t)) return false;
            double y = s.t.samples[t_idx(s.t, n)], w = s.t.w[t_idx(s.t, n)];
            mu += w * y; m2 += w * y * y; sum += w;
            ++n;
        }
        fit(s, frac<L>(s.threshold_probability), s.t.samples[t_idx(s.t, n - 1)] * mirror<L>(), mirror<L>() * mu / sum, m2 / sum);
        s.is_dirty = false;
    }
    return true;
}
template<bool L> double gpd_quantile(P<L> const &s, double p) { return mirror<L>() * (s.fit0 + s.fit1 / s.fit2 * (std::pow(frac<L>(p), -s.fit2) - 1.)); }
template<bool L> double gpd_mean(P<L> const &s, double p) { return gpd_quantile(s, p) - mirror<L>() * s.fit1 / (s.fit2 - 1.) * std::pow(frac<L>(p), -s.fit2); }
}
namespace witness { using namespace boost::accumulators; }
'''

PAIRS = []


def pair(pid, name, rule, c, r, gen, **kw):
    PAIRS.append((pid, name, rule, c, r, gen, kw))


def distinct(rnd, n):
    xs = []
    style = rnd.randrange(4)
    while len(xs) < n:
        if style == 1:
            x = F(len(xs) + 1)
        elif style == 2:
            x = F(-len(xs))
        else:
            x = F(rnd.randint(-900, 1100), 16)
        if x not in xs:
            xs.append(x)
    return xs


def hist(weighted=False, cov=None, ties=False, cap=True, p=False, nmax=12, params=None, vlen=2):
    def gen(rnd, i):
        env = {'cap': F(rnd.choice((1, 2, 2, 3, 4, 5, 8)))} if cap else {}
        if params:
            env.update(params(rnd))
        n = rnd.randint(1, nmax)
        xs = samples(rnd, n) if ties else distinct(rnd, n)
        h = [{'x': x} for x in xs]
        if weighted:
            for d, w in zip(h, wts(rnd, n)):
                d['w'] = w
        if cov == 'd':
            for d, c in zip(h, distinct(rnd, n)):
                d['y'] = c
        if cov == 'v':
            for d in h:
                d['y'] = evalt.Cont([F(rnd.randint(-20, 30), 4) for _ in range(vlen)])

        def obs(r, j, k):
            e = {}
            if p:
                e['p'] = F(r.randint(1, 31), 32) if r.random() < 0.7 else F(r.choice((0, 1, 2, 30, 31, 32)), 32)
            e['k'] = F(r.randrange(max(1, min(j, int(env.get('cap', 1))))))
            e['j'] = F(r.randrange(vlen))
            return e
        return env, h, obs
    return gen


for L, side in ((True, 'left'), (False, 'right')):
    b = 'true' if L else 'false'
    sd = side
    CAP = 'tag::tail<%s>::cache_size = cap' % side
    T = 'refp::T<%s>' % b

    def acc(name, feats, args, call, gets, w=False):
        return Src(name, '''typedef accumulator_set<double, stats<%s >%s > S;
S mk(std::size_t cap) { return S(%s); }
void up(S &s, %s) { s(%s); }
%s''' % (feats, ', double' if w else '', CAP, args, call, '\n'.join(gets)))

    def tref(name, args, call, gets):
        return Src(name, '''typedef %s S;
S mk(std::size_t cap) { return refp::t_make<%s>(cap); }
void up(S &s, %s) { refp::%s; }
%s''' % (T, b, args, call, '\n'.join(gets)))
    AT = 'double get_at(S const &s, std::size_t const &k) { return %s; }'
    SZ = 'std::size_t get_size(S const &s) { return %s; }'
    VA = 'double get_variate(S const &s, std::size_t const &k) { return %s; }'
    WE = 'double get_weight(S const &s, std::size_t const &k) { return %s; }'
    TA = '(boost::accumulators::tail)(s)'
    tat, tsz = AT % ('*(%s.begin() + k)' % TA), SZ % ('(std::size_t)%s.size()' % TA)
    rat, rsz = AT % 's.samples[refp::t_idx(s, k)]', SZ % 'refp::t_size(s)'
    tva, rva = VA % '*((boost::accumulators::tail_variate)(s).begin() + k)', VA % 's.cov[refp::t_idx(s, k)]'
    twe, rwe = WE % '*((boost::accumulators::tail_weights)(s).begin() + k)', WE % 's.w[refp::t_idx(s, k)]'
    rule = '%%s of %s'
    R = lambda n: '%s of the ' + n + ' is that of the most extreme samples'
    TV = 'tag::tail_variate<double, tag::covariate1, %s>' % side
    TW = 'tag::tail_weights<%s>' % side
    pair('C09', 'tail_' + sd, R('%s tail' % sd), acc('tail_' + sd, 'tag::tail<%s>' % side, X, 'x', [tat, tsz]), tref('tail_%s_r' % sd, X, 't_up(s, x)', [rat, rsz]), hist(ties=True))
    pair('C09', 'tailw_' + sd, R('weighted %s tail' % sd), acc('tailw_' + sd, 'tag::tail<%s>, %s' % (side, TW), XW, 'x, weight = w', [tat, twe, tsz], True),
         tref('tailw_%s_r' % sd, XW, 't_upw(s, x, w)', [rat, rwe, rsz]), hist(weighted=True))
    XY, XWY = 'double const &x, double const &y', 'double const &x, double const &w, double const &y'
    pair('C09', 'tailv_' + sd, R('%s tail with variates' % sd), acc('tailv_' + sd, '%s' % TV, XY, 'x, covariate1 = y', [tat, tva, tsz]),
         tref('tailv_%s_r' % sd, XY, 't_upc(s, x, y)', [rat, rva, rsz]), hist(cov='d'))
    pair('C09', 'tailwv_' + sd, R('weighted %s tail with variates' % sd), acc('tailwv_' + sd, '%s, %s' % (TW, TV), XWY, 'x, weight = w, covariate1 = y', [tat, twe, tva, tsz], True),
         tref('tailwv_%s_r' % sd, XWY, 't_upwc(s, x, w, y)', [rat, rwe, rva, rsz]), hist(weighted=True, cov='d'))
    # statistics of the tail
    P1 = 'double get_%s(S const &s, double const &p) { return %s; }'
    q, m, nm = '(quantile)(s, quantile_probability = p)', '(tail_mean)(s, quantile_probability = p)', '(non_coherent_tail_mean)(s, quantile_probability = p)'
    q, m, nm = ('(boost::accumulators::%s' % z[1:] for z in (q, m, nm))
    pair('C28', 'tq_' + sd, '%s of the ' + sd + ' tail is its order statistic',
         acc('tq_' + sd, 'tag::tail_quantile<%s>' % side, X, 'x', [P1 % ('quantile', q)]),
         tref('tq_%s_r' % sd, X, 't_up(s, x)', [P1 % ('quantile', 'refp::t_quantile(s, p)')]), hist(ties=True, p=True))
    pair('C28', 'tm_' + sd, '%s of the ' + sd + ' tail is that of its extreme samples',
         acc('tm_' + sd, 'tag::tail_quantile<%s>, tag::coherent_tail_mean<%s>' % (side, side), X, 'x', [P1 % ('non_coherent', nm), P1 % ('coherent', m)]),
         tref('tm_%s_r' % sd, X, 't_up(s, x)', [P1 % ('non_coherent', 'refp::t_nctm(s, p)'), P1 % ('coherent', 'refp::t_ctm(s, p)')]), hist(ties=True, p=True))
    pair('C28', 'wtq_' + sd, '%s of the weighted ' + sd + ' tail is its order statistic',
         acc('wtq_' + sd, 'tag::weighted_tail_quantile<%s>' % side, XW, 'x, weight = w', [P1 % ('quantile', q)], True),
         tref('wtq_%s_r' % sd, XW, 't_upw(s, x, w)', [P1 % ('quantile', 'refp::w_quantile(s, p)')]), hist(weighted=True, p=True))
    pair('C28', 'wtm_' + sd, '%s of the weighted ' + sd + ' tail is that of its extreme samples',
         acc('wtm_' + sd, 'tag::non_coherent_weighted_tail_mean<%s>' % side, XW, 'x, weight = w', [P1 % ('non_coherent', nm)], True),
         tref('wtm_%s_r' % sd, XW, 't_upw(s, x, w)', [P1 % ('non_coherent', 'refp::w_nctm(s, p)')]), hist(weighted=True, p=True))
    # sample types without NaN: an exception instead of a number
    XI, XIW = 'int const &x', 'int const &x, double const &w'
    PI = 'int get_%s(S const &s, double const &p) { return %s; }'

    def hint(w):
        g0 = hist(weighted=w, ties=not w, p=True)

        def g(rnd, i):
            env, h, o = g0(rnd, i)
            vals = {}
            for d in h:
                d['x'] = vals.setdefault(d['x'], F(int(d['x'] * 16)))
            return env, h, o
        return g
    pair('C28', 'tqi_' + sd, '%s of the ' + sd + ' tail of integers is its order statistic or an exception',
         Src('tqi_' + sd, acc('tqi_' + sd, 'tag::tail_quantile<%s>' % side, XI, 'x', [PI % ('quantile', q)]).body.replace('accumulator_set<double', 'accumulator_set<int')),
         tref('tqi_%s_r' % sd, XI, 't_up(s, (double)x)', [PI % ('quantile', 'refp::i_quantile(s, p)')]), hint(False))
    pair('C28', 'wtqi_' + sd, '%s of the weighted ' + sd + ' tail of integers is its order statistic or an exception',
         Src('wtqi_' + sd, acc('wtqi_' + sd, 'tag::weighted_tail_quantile<%s>' % side, XIW, 'x, weight = w', [PI % ('quantile', q)], True).body.replace('accumulator_set<double', 'accumulator_set<int')),
         tref('wtqi_%s_r' % sd, XIW, 't_upw(s, (double)x, w)', [PI % ('quantile', 'refp::iw_quantile(s, p)')]), hint(True))
    PJ = 'double get_%s(S const &s, double const &p, std::size_t const &j) { return %s; }'
    for rel, rn in ((False, 'absolute'), (True, 'relative')):
        XV, XWV = 'double const &x, VD const &y', 'double const &x, double const &w, VD const &y'
        ex = '*((boost::accumulators::%stail_variate_means)(s, quantile_probability = p).begin() + j)'
        pair('C28', 'vm_%s_%s' % (rn, sd), '%s tail variate means (' + rn + ', ' + sd + ') are those of the most extreme samples',
             acc('vm_%s_%s' % (rn, sd), 'tag::%s_tail_variate_means<%s, VD, tag::covariate1>' % (rn, side), XV, 'x, covariate1 = y',
                 [PJ % ('mean', '*((boost::accumulators::%s)(s, quantile_probability = p).begin() + j)' % ('relative_tail_variate_means' if rel else 'tail_variate_means'))]),
             tref('vm_%s_%s_r' % (rn, sd), XV, 't_upv(s, x, y)', [PJ % ('mean', 'refp::t_vmean(s, p, j, %s)' % ('true' if rel else 'false'))]), hist(cov='v', p=True))
        pair('C28', 'wvm_%s_%s' % (rn, sd), '%s weighted tail variate means (' + rn + ', ' + sd + ') are those of the most extreme samples',
             acc('wvm_%s_%s' % (rn, sd), 'tag::%s_weighted_tail_variate_means<%s, VD, tag::covariate1>' % (rn, side), XWV, 'x, weight = w, covariate1 = y',
                 [PJ % ('mean', '*((boost::accumulators::%s)(s, quantile_probability = p).begin() + j)' % ('relative_weighted_tail_variate_means' if rel else 'weighted_tail_variate_means'))], True),
             tref('wvm_%s_%s_r' % (rn, sd), XWV, 't_upwv(s, x, w, y)', [PJ % ('mean', 'refp::w_vmean(s, p, j, %s)' % ('true' if rel else 'false'))]), hist(weighted=True, cov='v', p=True))



def thr(rnd):
    return {'u': F(rnd.randint(-30, 30), 2)}


def tprob(rnd):
    return {'tp': F(rnd.randint(1, 31), 32)}


for L, side in ((True, 'left'), (False, 'right')):
    b = 'true' if L else 'false'
    for w in (False, True):
        for prob in (False, True):
            W = 'weighted_' if w else ''
            V = 'with_threshold_probability' if prob else 'with_threshold_value'
            nm = '%spot%s_%s' % ('w' if w else '', 'p' if prob else 'v', side)
            A = XW if w else X
            call = 'x, weight = w' if w else 'x'
            mk = 'S mk(std::size_t cap, double tp) { return S(tag::tail<%s>::cache_size = cap, pot_threshold_probability = tp); }' % side if prob else 'S mk(double u) { return S(pot_threshold_value = u); }'
            gets = ['double get_fit%d(S const &s) { return (boost::accumulators::%speaks_over_threshold)(s).get<%d>(); }' % (i, W, i) for i in range(3)]
            gets += ['double get_quantile(S const &s, double const &p) { return (boost::accumulators::quantile)(s, quantile_probability = p); }',
                     'double get_tail_mean(S const &s, double const &p) { return (boost::accumulators::tail_mean)(s, quantile_probability = p); }']
            c = Src(nm, """typedef accumulator_set<double, stats<tag::%spot_quantile<%s>(%s), tag::%spot_tail_mean<%s>(%s) >%s > S;
%s
void up(S &s, %s) { s(%s); }
%s""" % (W, side, V, W, side, V, ', double' if w else '', mk, A, call, '\n'.join(gets)))
            fit = '%sp%s_fit' % ('w' if w else '', 'p' if prob else '')
            rg = ['double get_fit%d(S const &s) { return refp::%s(s) ? s.fit%d : refp::nan(); }' % (i, fit, i) for i in range(3)]
            rg += ['double get_quantile(S const &s, double const &p) { return refp::%s(s) ? refp::gpd_quantile(s, p) : refp::nan(); }' % fit,
                   'double get_tail_mean(S const &s, double const &p) { return refp::%s(s) ? refp::gpd_mean(s, p) : refp::nan(); }' % fit]
            rmk = 'S mk(std::size_t cap, double tp) { return refp::p_make<%s>(0., tp, cap); }' % b if prob else 'S mk(double u) { return refp::p_make<%s>(u, 0., 1); }' % b
            r = Src(nm + '_r', """typedef refp::P<%s> S;
%s
void up(S &s, %s) { refp::%s(s, %s); }
%s""" % (b, rmk, A, fit.replace('_fit', '_up'), 'x, w' if w else 'x', '\n'.join(rg)))
            pair('C26', nm, '%s of ' + nm + ' is that of the generalized Pareto fit', c, r, hist(weighted=w, cap=prob, p=True, params=tprob if prob else thr))


def work(cases, bad, arg):
    return work_pairs(cases, bad, PAIRS)


def main(pid):
    return main_pairs(pid, 'tails', PAIRS, PRE)
