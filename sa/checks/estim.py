"""Estimators (P-square family, histograms, medians): refinement of reference programs written from the published algorithms."""
from refine import *
from checks.formulas import compile_failures
from checks.framework import Raw as FRaw
import traceback

PRE = r'''#include "common.hpp"
#include <boost/array.hpp>
namespace refp {
typedef boost::array<double, 5> A5; typedef std::vector<double> VD;
// one adjustment step of the P-square algorithm: markers 1 .. m-2 move by at most one position towards their desired position
template<class A> void adjust(A &q, A &n, A const &want, std::size_t m)
{
    for(std::size_t i = 1; i <= m - 2; ++i)
    {
        double d = want[i] - n[i];
        double up = n[i + 1] - n[i];
        double dn = n[i - 1] - n[i];
        double sup = (q[i + 1] - q[i]) / up;
        double sdn = (q[i - 1] - q[i]) / dn;
        if((d >= 1. && up > 1.) || (d <= -1. && dn < -1.))
        {
            short s = static_cast<short>(d / std::abs(d));
            double h = q[i] + s / (up - dn) * ((s - dn) * sup + (up - s) * sdn);
            if(q[i - 1] < h && h < q[i + 1])
                q[i] = h;
            else
            {
                if(d > 0.) q[i] += sup;
                if(d < 0.) q[i] -= sdn;
            }
            n[i] += s;
        }
    }
}
// index of the first marker above x (x inside the range), extreme markers follow the extreme samples
template<class A> std::size_t cell(A &q, std::size_t m, double const &x)
{
    if(x < q[0]) { q[0] = x; return 1; }
    if(q[m - 1] <= x) { q[m - 1] = x; return m - 1; }
    return std::distance(q.begin(), std::upper_bound(q.begin(), q.end(), x));
}
// sort the first m samples together with their weights, then accumulate the weights
template<class A> void start(A &q, A &n, std::size_t m)
{
    typename A::iterator b, e, lo;
    b = q.begin();
    e = q.end();
    std::size_t pos = 0;
    while(b != e)
    {
        lo = std::min_element(b, e);
        std::size_t d = std::distance(b, lo);
        std::swap(*b, *lo);
        std::swap(n[pos], n[pos + d]);
        ++b;
        ++pos;
    }
    for(std::size_t i = 1; i < m; ++i) n[i] += n[i - 1];
}
// ---------------------------------------------------------------- P-square, one quantile
struct PS { std::size_t cnt; double p; A5 q, n, want, inc; };
inline PS ps_make(double p)
{
    PS s;
    s.cnt = 0; s.p = p;
    for(std::size_t i = 0; i < 5; ++i) s.n[i] = i + 1.;
    s.want[0] = 1.; s.want[1] = 1. + 2. * p; s.want[2] = 1. + 4. * p; s.want[3] = 3. + 2. * p; s.want[4] = 5.;
    s.inc[0] = 0.; s.inc[1] = p / 2.; s.inc[2] = p; s.inc[3] = (1. + p) / 2.; s.inc[4] = 1.;
    return s;
}
inline void ps_up(PS &s, double const &x)
{
    ++s.cnt;
    if(s.cnt <= 5)
    {
        s.q[s.cnt - 1] = x;
        if(s.cnt == 5) std::sort(s.q.begin(), s.q.end());
    }
    else
    {
        std::size_t k = cell(s.q, 5, x);
        for(std::size_t i = k; i < 5; ++i) ++s.n[i];
        for(std::size_t i = 0; i < 5; ++i) s.want[i] += s.inc[i];
        adjust(s.q, s.n, s.want, 5);
    }
}
struct WPS { std::size_t cnt; double p, sw; A5 q, n, want; };
inline WPS wps_make(double p) { WPS s; s.cnt = 0; s.p = p; s.sw = 0.; return s; }
inline void wps_up(WPS &s, double const &x, double const &w)
{
    ++s.cnt;
    s.sw += w;
    if(s.cnt <= 5)
    {
        s.q[s.cnt - 1] = x;
        s.n[s.cnt - 1] = w;
        if(s.cnt == 5) start(s.q, s.n, 5);
    }
    else
    {
        if(x < s.q[0]) s.n[0] = w;
        std::size_t k = cell(s.q, 5, x);
        for(std::size_t i = k; i < 5; ++i) s.n[i] += w;
        s.want[0] = s.n[0];
        s.want[1] = (s.sw - s.n[0]) * s.p / 2. + s.n[0];
        s.want[2] = (s.sw - s.n[0]) * s.p + s.n[0];
        s.want[3] = (s.sw - s.n[0]) * (1. + s.p) / 2. + s.n[0];
        s.want[4] = s.sw;
        adjust(s.q, s.n, s.want, 5);
    }
}
// ---------------------------------------------------------------- P-square, several quantiles
struct EP { std::size_t cnt; VD p, q, n, want, inc; };
inline EP ep_make(VD const &pr)
{
    EP s;
    s.cnt = 0; s.p = pr;
    std::size_t k = pr.size(), m = 2 * k + 3;
    s.q = VD(m); s.n = VD(m); s.want = VD(m); s.inc = VD(m);
    for(std::size_t i = 0; i < m; ++i) s.n[i] = i + 1.;
    s.inc[0] = 0.;
    s.inc[m - 1] = 1.;
    for(std::size_t i = 0; i < k; ++i) s.inc[2 * i + 2] = pr[i];
    for(std::size_t i = 0; i <= k; ++i) s.inc[2 * i + 1] = (s.inc[2 * i] + s.inc[2 * i + 2]) / 2.;
    for(std::size_t i = 0; i < m; ++i) s.want[i] = 1. + 2. * (k + 1.) * s.inc[i];
    return s;
}
inline void ep_up(EP &s, double const &x)
{
    std::size_t m = 2 * s.p.size() + 3;
    ++s.cnt;
    if(s.cnt <= m)
    {
        s.q[s.cnt - 1] = x;
        if(s.cnt == m) std::sort(s.q.begin(), s.q.end());
    }
    else
    {
        std::size_t k = cell(s.q, m, x);
        for(std::size_t i = k; i < m; ++i) ++s.n[i];
        for(std::size_t i = 0; i < m; ++i) s.want[i] += s.inc[i];
        adjust(s.q, s.n, s.want, m);
    }
}
struct WEP { std::size_t cnt; double sw; VD p, q, n, want; };
inline WEP wep_make(VD const &pr)
{
    WEP s;
    s.cnt = 0; s.sw = 0.; s.p = pr;
    std::size_t m = 2 * pr.size() + 3;
    s.q = VD(m); s.n = VD(m); s.want = VD(m);
    return s;
}
inline void wep_up(WEP &s, double const &x, double const &w)
{
    std::size_t k = s.p.size(), m = 2 * k + 3;
    ++s.cnt;
    s.sw += w;
    if(s.cnt <= m)
    {
        s.q[s.cnt - 1] = x;
        s.n[s.cnt - 1] = w;
        if(s.cnt == m) start(s.q, s.n, m);
    }
    else
    {
        if(x < s.q[0]) s.n[0] = w;
        std::size_t c = cell(s.q, m, x);
        for(std::size_t i = c; i < m; ++i) s.n[i] += w;
        s.want[0] = s.n[0];
        s.want[m - 1] = s.sw;
        s.want[1] = (s.sw - s.n[0]) * s.p[0] / 2. + s.n[0];
        s.want[m - 2] = (s.sw - s.n[0]) * (s.p[k - 1] + 1.) / 2. + s.n[0];
        for(std::size_t i = 0; i < k; ++i) s.want[2 * i + 2] = (s.sw - s.n[0]) * s.p[i] + s.n[0];
        for(std::size_t i = 1; i < k; ++i) s.want[2 * i + 1] = (s.sw - s.n[0]) * (s.p[i - 1] + s.p[i]) / 2. + s.n[0];
        adjust(s.q, s.n, s.want, m);
    }
}
// ---------------------------------------------------------------- P-square histogram
typedef std::vector<std::pair<double, double> > VP;
struct PH { std::size_t cnt, b; VD q, n, want, inc; mutable VP tab; mutable bool table_dirty; mutable double median; mutable bool median_dirty; };
inline PH ph_make(std::size_t b)
{
    PH s;
    s.cnt = 0; s.b = b;
    s.q = VD(b + 1); s.n = VD(b + 1); s.want = VD(b + 1); s.inc = VD(b + 1); s.tab = VP(b + 1); s.table_dirty = true; s.median_dirty = true;
    for(std::size_t i = 0; i < b + 1; ++i)
    {
        s.n[i] = i + 1.;
        s.want[i] = i + 1.;
        s.inc[i] = double(i) / b;
    }
    return s;
}
inline void ph_up(PH &s, double const &x)
{
    s.table_dirty = true; s.median_dirty = true;
    ++s.cnt;
    if(s.cnt <= s.b + 1)
    {
        s.q[s.cnt - 1] = x;
        if(s.cnt == s.b + 1) std::sort(s.q.begin(), s.q.end());
    }
    else
    {
        std::size_t k = cell(s.q, s.b + 1, x);
        for(std::size_t i = k; i < s.b + 1; ++i) ++s.n[i];
        for(std::size_t i = 1; i < s.b + 1; ++i) s.want[i] += s.inc[i];
        adjust(s.q, s.n, s.want, s.b + 1);
    }
}
struct WPH { std::size_t cnt, b; double sw; VD q, n, want; mutable VP tab; mutable bool table_dirty; mutable double median; mutable bool median_dirty; };
inline WPH wph_make(std::size_t b)
{
    WPH s;
    s.cnt = 0; s.b = b; s.sw = 0.;
    s.q = VD(b + 1); s.n = VD(b + 1); s.want = VD(b + 1); s.tab = VP(b + 1); s.table_dirty = true; s.median_dirty = true;
    return s;
}
inline void wph_up(WPH &s, double const &x, double const &w)
{
    s.table_dirty = true; s.median_dirty = true;
    ++s.cnt;
    s.sw += w;
    if(s.cnt <= s.b + 1)
    {
        s.q[s.cnt - 1] = x;
        s.n[s.cnt - 1] = w;
        if(s.cnt == s.b + 1) start(s.q, s.n, s.b + 1);
    }
    else
    {
        if(x < s.q[0]) s.n[0] = w;
        std::size_t k = cell(s.q, s.b + 1, x);
        for(std::size_t i = k; i < s.b + 1; ++i) s.n[i] += w;
        for(std::size_t i = 1; i < s.b + 1; ++i) s.want[i] = s.n[0] + i * (s.sw - s.n[0]) / s.b;
        adjust(s.q, s.n, s.want, s.b + 1);
    }
}
// marker heights with the fraction of samples up to them
inline double total(PH const &s) { return s.cnt; }
inline double total(WPH const &s) { return s.sw; }
template<class P> VP const &table(P const &s)
{
    if(s.table_dirty)
    {
        s.table_dirty = false;
        for(std::size_t i = 0; i < s.tab.size(); ++i) s.tab[i] = std::make_pair(s.q[i], s.n[i] / total(s));
    }
    return s.tab;
}
// median from a cumulative distribution: linear interpolation between the two markers around 1/2
template<class P> double cdf_median(P const &s)
{
    if(s.median_dirty)
    {
        s.median_dirty = false;
        VP const &t = table(s);
        VP::const_iterator it = t.begin();
        while(it->second < 0.5) ++it;
        if(it == t.begin()) s.median = it->first;
        else
        {
            double over = (it->second - 0.5) / (it->second - (it - 1)->second);
            s.median = (it - 1)->first * over + it->first * (1. - over);
        }
    }
    return s.median;
}
// ---------------------------------------------------------------- histogram of equal bins between the extremes of the first c samples
struct DE { std::size_t cnt, c, nb; double lo, hi; VD cx, mass, pos; mutable VP tab; mutable bool table_dirty; mutable double sum, median; mutable bool median_dirty; };
struct WDE { std::size_t cnt, c, nb; double lo, hi, sw; VP cx; VD mass, pos; mutable VP tab; mutable bool table_dirty; mutable double sum, median; mutable bool median_dirty; };
inline double total(DE const &s) { return s.cnt; }
inline double total(WDE const &s) { return s.sw; }
template<class D> void de_init(D &s, std::size_t c, std::size_t n)
{
    s.cnt = 0; s.c = c; s.nb = n; s.lo = std::numeric_limits<double>::max(); s.hi = -std::numeric_limits<double>::max(); s.sum = 0.;
    s.mass = VD(n + 2, 0.); s.pos = VD(n + 2); s.tab = VP(n + 2, std::make_pair(0., 0.)); s.table_dirty = true; s.median_dirty = true;
}
inline DE de_make(std::size_t c, std::size_t n) { DE s; de_init(s, c, n); s.cx = VD(c); return s; }
inline WDE wde_make(std::size_t c, std::size_t n) { WDE s; de_init(s, c, n); s.cx = VP(c); s.sw = 0.; return s; }
template<class D> void de_put(D &s, double const &x, double const &w)
{
    if(x < s.pos[1]) s.mass[0] += w;
    else if(x >= s.pos[s.nb + 1]) s.mass[s.nb + 1] += w;
    else s.mass[std::distance(s.pos.begin(), std::upper_bound(s.pos.begin(), s.pos.end(), x)) - 1] += w;
}
template<class D> void de_range(D &s, double const &x)
{
    s.table_dirty = true; s.median_dirty = true;
    ++s.cnt;
    s.lo = x < s.lo ? x : s.lo;
    s.hi = s.hi < x ? x : s.hi;
}
template<class D> void de_bins(D &s)
{
    double w = (s.hi - s.lo) / s.nb;
    for(std::size_t i = 0; i < s.nb + 2; ++i) s.pos[i] = s.lo + (i - 1.) * w;
}
inline void de_up(DE &s, double const &x)
{
    de_range(s, x);
    if(s.cnt <= s.c) s.cx[s.cnt - 1] = x;
    if(s.cnt == s.c)
    {
        de_bins(s);
        for(VD::const_iterator i = s.cx.begin(); i != s.cx.end(); ++i) de_put(s, *i, 1.);
    }
    else if(s.cnt > s.c) de_put(s, x, 1.);
}
inline void wde_up(WDE &s, double const &x, double const &w)
{
    de_range(s, x);
    s.sw += w;
    if(s.cnt <= s.c) s.cx[s.cnt - 1] = std::make_pair(x, w);
    if(s.cnt == s.c)
    {
        de_bins(s);
        for(VP::const_iterator i = s.cx.begin(); i != s.cx.end(); ++i) de_put(s, i->first, i->second);
    }
    else if(s.cnt > s.c) de_put(s, x, w);
}
template<class D> VP const &de_table(D const &s)
{
    if(s.table_dirty)
    {
        s.table_dirty = false;
        for(std::size_t i = 0; i < s.nb + 2; ++i) s.tab[i] = std::make_pair(s.pos[i], s.mass[i] / total(s));
    }
    return s.tab;
}
template<class D> double de_median(D const &s)
{
    if(s.median_dirty)
    {
        s.median_dirty = false;
        double cnt = s.cnt;
        VP const &t = de_table(s);
        VP::const_iterator it = t.begin();
        s.sum = 0.;
        while(s.sum < 0.5 * cnt) { s.sum += it->second * cnt; ++it; }
        --it;
        double over = (s.sum - 0.5 * cnt) / (it->second * cnt);
        s.median = it->first * over + (it + 1)->first * (1. - over);
    }
    return s.median;
}
}
'''


class Src:
    def __init__(self, name, body):
        self.name, self.body = name, body

    def source(self, ser=True):
        return 'namespace witness { namespace %s {\n%s\n} }' % (self.name, self.body)


F = Fraction


def samples(rnd, n, style=None):
    style = style if style is not None else rnd.randrange(6)
    if style == 0:
        return [F(rnd.randint(-3, 4)) for _ in range(n)]            # many ties
    if style == 1:
        return [F(rnd.randint(-4000, 6000), 64) for _ in range(n)]
    if style == 2:
        return [F(i + 1) for i in range(n)]                          # ascending
    if style == 3:
        return [F(-i) for i in range(n)]                             # descending
    if style == 4:
        xs = [F(rnd.randint(-40, 60), 8) for _ in range(n)]
        return [x if rnd.random() < 0.6 else rnd.choice(xs) for x in xs]
    return [F(rnd.choice((-1, 1)) * 4 ** rnd.randint(0, 5), 16) for _ in range(n)]


def wts(rnd, n):
    s = rnd.randrange(4)
    if s == 0:
        return [F(1)] * n
    if s == 1:
        return [F(rnd.randint(1, 5)) for _ in range(n)]
    return [F(rnd.randint(1, 40), 8) for _ in range(n)]


def gen_of(params, length, weighted=False, obs=None):
    """histories with the given constructor parameters"""
    def gen(rnd, i):
        env = params(rnd)
        n = length(rnd, env)
        xs = samples(rnd, n)
        h = [{'x': x} for x in xs]
        if weighted:
            for d, w in zip(h, wts(rnd, n)):
                d['w'] = w
        return env, h, (lambda r, j, k: obs(r, env, k)) if obs else (lambda r, j, k: {})
    return gen


X, XW = 'double const &x', 'double const &x, double const &w'


def code(name, feats, weighted, ctor, cp, gets):
    return Src(name, '''typedef accumulator_set<double, stats<%s >%s > S;
S mk(%s) { return S(%s); }
void up(S &s, %s) { s(x%s); }
%s''' % (feats, ', double' if weighted else '', cp, ctor, XW if weighted else X, ', weight = w' if weighted else '', '\n'.join(gets))
               if ctor else '''typedef accumulator_set<double, stats<%s >%s > S;
S mk() { return S(); }
void up(S &s, %s) { s(x%s); }
%s''' % (feats, ', double' if weighted else '', XW if weighted else X, ', weight = w' if weighted else '', '\n'.join(gets)))


def ref(name, st, make, cp, margs, up, weighted, gets):
    return Src(name, '''typedef refp::%s S;
S mk(%s) { return refp::%s(%s); }
void up(S &s, %s) { refp::%s(s, x%s); }
%s''' % (st, cp, make, margs, XW if weighted else X, up, ', w' if weighted else '', '\n'.join(gets)))


def prob(rnd):
    return {'p': F(rnd.randint(1, 31), 32)}


def probs(rnd):
    k = rnd.choice((1, 2, 2, 3, 4))
    return {'pr': evalt.Cont([F(x, 32) for x in sorted(rnd.sample(range(1, 32), k))])}


def cells(rnd):
    return {'n': F(rnd.randint(2, 5))}


PAIRS = []


def pair(pid, name, rule, c, r, gen, **kw):
    PAIRS.append((pid, name, rule, c, r, gen, kw))


def late(n0):
    """observations only from the end of the start-up phase on"""
    return lambda k, i, env: i < n0(env)


Q = 'double get_quantile(S const &s) { return %s; }'
for w, sfx in ((False, ''), (True, 'w')):
    W = 'weighted_' if w else ''
    # single quantile
    for nm, feat, ctor, cp, mk in (('psq', 'tag::%sp_square_quantile' % W, 'quantile_probability = p', 'double p', 'p'),
                                   ('psqm', 'tag::%sp_square_quantile_for_median' % W, '', '', '0.5'),
                                   ('med', 'tag::median', '', '', '0.5'),
                                   ('psqd', 'tag::%sp_square_quantile' % W, '', '', '0.5')):
        tagx = 'tag::median' if nm == 'med' else feat
        ex = 'extract_result<%s >(s)' % feat if nm != 'med' else '(boost::accumulators::median)(s)'
        pair('C23', sfx + nm, '%s of ' + sfx + nm + ' is that of the P-square algorithm',
             code(sfx + nm, feat, w, ctor, cp, [Q % ex]),
             ref(sfx + nm + '_r', 'WPS' if w else 'PS', 'wps_make' if w else 'ps_make', cp, mk, 'wps_up' if w else 'ps_up', w, [Q % 's.q[2]']),
             gen_of(prob if ctor else (lambda r: {}), lambda r, e: r.randint(5, 16), w), skip=late(lambda e: 5))
    # several quantiles
    gets = ['double get_at(S const &s, std::size_t const &k) { return %s; }', 'std::size_t get_size(S const &s) { return %s; }']
    pair('C25', sfx + 'eps', '%s of ' + sfx + 'eps is that of the extended P-square algorithm',
         code(sfx + 'eps', 'tag::extended_p_square', w, 'extended_p_square_probabilities = pr', 'VD const &pr',
              [gets[0] % '*((boost::accumulators::extended_p_square)(s).begin() + k)', gets[1] % '(std::size_t)(boost::accumulators::extended_p_square)(s).size()']),
         ref(sfx + 'eps_r', 'WEP' if w else 'EP', 'wep_make' if w else 'ep_make', 'VD const &pr', 'pr', 'wep_up' if w else 'ep_up', w,
             [gets[0] % 's.q[2 * k + 2]', gets[1] % 's.p.size()']),
         gen_of(probs, lambda r, e: 2 * len(e['pr'].e) + 3 + r.randint(0, 8), w, lambda r, e, k: {'k': F(r.randrange(len(e['pr'].e)))}), skip=late(lambda e: 2 * len(e['pr'].e) + 3))
    # distribution
    gets = ['double get_x(S const &s, std::size_t const &k) { return %s; }', 'double get_y(S const &s, std::size_t const &k) { return %s; }', 'std::size_t get_size(S const &s) { return %s; }']
    D = '(boost::accumulators::p_square_cumulative_distribution)(s)'
    pair('C27', sfx + 'pcd', '%s of ' + sfx + 'pcd is that of the P-square histogram algorithm',
         code(sfx + 'pcd', 'tag::p_square_cumulative_distribution', w, 'p_square_cumulative_distribution_num_cells = n', 'std::size_t n',
              [gets[0] % ('(%s.begin() + k)->first' % D), gets[1] % ('(%s.begin() + k)->second' % D), gets[2] % ('(std::size_t)%s.size()' % D)]),
         ref(sfx + 'pcd_r', 'WPH' if w else 'PH', 'wph_make' if w else 'ph_make', 'std::size_t n', 'n', 'wph_up' if w else 'ph_up', w,
             [gets[0] % '(refp::table(s).begin() + k)->first', gets[1] % '(refp::table(s).begin() + k)->second', gets[2] % 'refp::table(s).size()']),
         gen_of(cells, lambda r, e: int(e['n']) + 1 + r.randint(0, 9), w, lambda r, e, k: {'k': F(r.randint(0, int(e['n'])))}), skip=late(lambda e: int(e['n']) + 1))
    pair('C27', sfx + 'pcdmedian', '%s of ' + sfx + 'pcdmedian interpolates the P-square histogram at one half',
         code(sfx + 'pcdmedian', 'tag::median(with_p_square_cumulative_distribution)', w, 'p_square_cumulative_distribution_num_cells = n', 'std::size_t n',
              ['double get_median(S const &s) { return (boost::accumulators::median)(s); }']),
         ref(sfx + 'pcdmedian_r', 'WPH' if w else 'PH', 'wph_make' if w else 'ph_make', 'std::size_t n', 'n', 'wph_up' if w else 'ph_up', w,
             ['double get_median(S const &s) { return refp::cdf_median(s); }']),
         gen_of(cells, lambda r, e: int(e['n']) + 1 + r.randint(0, 9), w), skip=late(lambda e: int(e['n']) + 1))
    # density
    D = '(boost::accumulators::density)(s)'

    def dparams(rnd):
        return {'c': F(rnd.randint(2, 5)), 'n': F(rnd.randint(1, 4))}
    pair('C24', sfx + 'density', '%s of ' + sfx + 'density is that of the histogram',
         code(sfx + 'density', 'tag::density', w, 'density_cache_size = c, density_num_bins = n', 'std::size_t c, std::size_t n',
              [gets[0] % ('(%s.begin() + k)->first' % D), gets[1] % ('(%s.begin() + k)->second' % D), gets[2] % ('(std::size_t)%s.size()' % D)]),
         ref(sfx + 'density_r', 'WDE' if w else 'DE', sfx + 'de_make', 'std::size_t c, std::size_t n', 'c, n', sfx + 'de_up', w,
             [gets[0] % '(refp::de_table(s).begin() + k)->first', gets[1] % '(refp::de_table(s).begin() + k)->second', gets[2] % 'refp::de_table(s).size()']),
         gen_of(dparams, lambda r, e: int(e['c']) + r.randint(0, 8), w, lambda r, e, k: {'k': F(r.randint(0, int(e['n']) + 1))}), skip=late(lambda e: int(e['c'])))
    pair('C24', sfx + 'dmedian', '%s of ' + sfx + 'dmedian interpolates the histogram at one half',
         code(sfx + 'dmedian', 'tag::median(with_density)', w, 'density_cache_size = c, density_num_bins = n', 'std::size_t c, std::size_t n',
              ['double get_median(S const &s) { return (boost::accumulators::median)(s); }']),
         ref(sfx + 'dmedian_r', 'WDE' if w else 'DE', sfx + 'de_make', 'std::size_t c, std::size_t n', 'c, n', sfx + 'de_up', w,
             ['double get_median(S const &s) { return refp::de_median(s); }']),
         gen_of(dparams, lambda r, e: int(e['c']) + r.randint(0, 8), w), skip=late(lambda e: int(e['c'])))


def work_pairs(cases, bad, pairs):
    rep = Rep()
    compile_failures(rep, {k: v for k, v in bad.items() if not k.endswith('_r')})
    for k in bad:
        if k.endswith('_r'):
            raise build.BrokenAnalysis('reference %s: %s' % (k, bad[k]))
    by = {c.name: c for c in cases}
    for pid, name, rule, c, r, gen, kw in pairs:
        if name not in by or c.name not in by or r.name not in by:
            continue
        rep.units += 1
        try:
            with limited(200):
                refine(rep, rule, by[c.name], by[r.name], gen, **kw)
        except Exception as x:
            rep.unk(name, 'not evaluated: %r %s' % (x, traceback.format_exc()[-300:]))
    return rep


RULE = 'refinement of a reference program: inductive relation between the extracted transformers of the accumulator set and of the reference, found by mining equal leaves and shown by comparison of value numbers; a violation needs a run of the two extracted transformers with different observations'


def main_pairs(pid, module, pairs, pre, what='the reference programs in sa/checks/%s.py state the documented algorithms', only=None, size=2):
    t0 = time.time()
    os.environ.setdefault('SA_DEADLINE', str(t0 + 420))
    rep = Rep()
    ents = []
    for q, name, rule, c, r, gen, kw in pairs:
        if q == pid and (only is None or name in only):
            ents += [c, r]
    for r in pmap('checks.' + module, 'work', ents, size=size, pre=pre, ser=False):
        rep.merge(r)
    return finish(pid, rep, t0, RULE, assumptions=[what % module, 'exact arithmetic'], min_obl=2)


def work(cases, bad, arg):
    return work_pairs(cases, bad, PAIRS)


def main(pid):
    return main_pairs(pid, 'estim', PAIRS, PRE)
