"""Quantiles interpolated between the markers of extended_p_square: refinement of reference programs."""
from checks.estim import *
from checks.estim import Src
from checks.estim import PRE as EPRE

PRE = EPRE + r'''
namespace refp {
// value of the parabola (line) through the points at p
inline double line(double a, double b, double ha, double hb, double p) { return ha + (p - a) * (hb - ha) / (b - a); }
inline double parabola(double a, double b, double c, double ha, double hb, double hc, double p)
{
    return ha * (p - b) * (p - c) / ((a - b) * (a - c)) + hb * (p - a) * (p - c) / ((b - a) * (b - c)) + hc * (p - a) * (p - b) / ((c - a) * (c - b));
}
template<class E> double interp1(E const &s, double const &p)
{
    std::size_t m = s.p.size();
    if(p < s.p[0] || p > s.p[m - 1]) return std::numeric_limits<double>::quiet_NaN();
    std::size_t i = std::distance(s.p.begin(), std::lower_bound(s.p.begin(), s.p.end(), p));
    if(s.p[i] == p) return s.q[2 * i + 2];
    return line(s.p[i - 1], s.p[i], s.q[2 * i], s.q[2 * i + 2], p);
}
// the third point is the neighbour on the side nearer to p, or the only one there is
template<class E> double interp2(E const &s, double const &p)
{
    std::size_t m = s.p.size();
    if(p < s.p[0] || p > s.p[m - 1]) return std::numeric_limits<double>::quiet_NaN();
    std::size_t i = std::distance(s.p.begin(), std::lower_bound(s.p.begin(), s.p.end(), p));
    if(s.p[i] == p) return s.q[2 * i + 2];
    bool right = i != m - 1 && (i == 1 || s.p[i] - p <= p - s.p[i - 1]);
    if(right) return parabola(s.p[i - 1], s.p[i], s.p[i + 1], s.q[2 * i], s.q[2 * i + 2], s.q[2 * i + 4], p);
    return parabola(s.p[i - 2], s.p[i - 1], s.p[i], s.q[2 * i - 2], s.q[2 * i], s.q[2 * i + 2], p);
}
}
'''
PAIRS = []


def pair(pid, name, rule, c, r, gen, **kw):
    PAIRS.append((pid, name, rule, c, r, gen, kw))


def probs_of(lo):
    def f(rnd):
        k = rnd.choice((lo, lo, lo + 1, 4, 5))
        return {'pr': evalt.Cont([F(x, 32) for x in sorted(rnd.sample(range(1, 32), k))])}
    return f


def levels(r, e, k):
    pr = e['pr'].e
    c = r.randrange(5)
    if c == 0:
        return {'p': r.choice(pr)}
    if c == 1:
        return {'p': F(r.randint(0, 32), 32)}
    i = r.randrange(len(pr) - 1) if len(pr) > 1 else 0
    a, b = pr[i], pr[min(i + 1, len(pr) - 1)]
    return {'p': a + (b - a) * r.choice((F(1, 4), F(1, 2), F(3, 4), F(1, 3)))}


G1 = 'double get_quantile(S const &s, double const &p) { return %s; }'
for w, sfx in ((False, ''), (True, 'w')):
    W = 'weighted_' if w else ''
    for nm, lo, feat, rf in (('lin', 1, 'tag::%sextended_p_square_quantile' % W, 'interp1'), ('quad', 3, 'tag::%sextended_p_square_quantile_quadratic' % W, 'interp2'),
                             ('vlin', 1, 'tag::extended_p_square_quantile(linear)', 'interp1'), ('vquad', 3, 'tag::extended_p_square_quantile(quadratic)', 'interp2')):
        pair('C29', sfx + 'eq' + nm, '%s of ' + feat.replace('tag::', '') + (' (weighted set)' if w else '') + ' interpolates the markers of extended_p_square',
             code(sfx + 'eq' + nm, feat, w, 'extended_p_square_probabilities = pr', 'VD const &pr', [G1 % '(boost::accumulators::quantile)(s, quantile_probability = p)']),
             ref(sfx + 'eq' + nm + '_r', 'WEP' if w else 'EP', 'wep_make' if w else 'ep_make', 'VD const &pr', 'pr', 'wep_up' if w else 'ep_up', w, [G1 % ('refp::%s(s, p)' % rf)]),
             gen_of(probs_of(lo), lambda r, e: 2 * len(e['pr'].e) + 3 + r.randint(0, 4), w, levels), skip=late(lambda e: 2 * len(e['pr'].e) + 3), runs=120, limit_s=60)


def work(cases, bad, arg):
    return work_pairs(cases, bad, PAIRS)


def main(pid):
    return main_pairs(pid, 'epsq', PAIRS, PRE)
