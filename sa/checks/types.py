"""Type-level witnesses: what must hold when a program is compiled, and what must not compile."""
from core import *
import re
from concurrent.futures import ThreadPoolExecutor

PRE = '''#include <vector>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
'''
V = '<double, tag::covariate1>'
# spelling in stats<> -> the implementation it stands for, and that in a set with weights
SPELL = [
    ('tag::count', 'tag::count', 'tag::count'),
    ('tag::sum', 'tag::sum', 'tag::weighted_sum'),
    ('tag::sum(kahan)', 'tag::sum_kahan', 'tag::weighted_sum_kahan'),
    ('tag::sum_of_weights(kahan)', 'tag::sum_of_weights_kahan', None),
    ('tag::mean', 'tag::mean', 'tag::weighted_mean'),
    ('tag::mean(lazy)', 'tag::mean', 'tag::weighted_mean'),
    ('tag::mean(immediate)', 'tag::immediate_mean', 'tag::immediate_weighted_mean'),
    ('tag::mean_of_weights(lazy)', 'tag::mean_of_weights', None),
    ('tag::mean_of_weights(immediate)', 'tag::immediate_mean_of_weights', None),
    ('tag::mean_of_variates%s' % V, 'tag::mean_of_variates%s' % V, 'tag::weighted_mean_of_variates%s' % V),
    ('tag::mean_of_variates%s(lazy)' % V, 'tag::mean_of_variates%s' % V, 'tag::weighted_mean_of_variates%s' % V),
    ('tag::mean_of_variates%s(immediate)' % V, 'tag::immediate_mean_of_variates%s' % V, 'tag::immediate_weighted_mean_of_variates%s' % V),
    ('tag::min', 'tag::min', 'tag::min'), ('tag::max', 'tag::max', 'tag::max'),
    ('tag::moment<2>', 'tag::moment<2>', 'tag::weighted_moment<2>'), ('tag::moment<7>', 'tag::moment<7>', 'tag::weighted_moment<7>'),
    ('tag::variance', 'tag::variance', 'tag::weighted_variance'),
    ('tag::variance(lazy)', 'tag::lazy_variance', 'tag::lazy_weighted_variance'),
    ('tag::variance(immediate)', 'tag::variance', 'tag::weighted_variance'),
    ('tag::skewness', 'tag::skewness', 'tag::weighted_skewness'), ('tag::kurtosis', 'tag::kurtosis', 'tag::weighted_kurtosis'),
    ('tag::covariance%s' % V, 'tag::covariance%s' % V, 'tag::weighted_covariance%s' % V),
    ('tag::density', 'tag::density', 'tag::weighted_density'),
    ('tag::median', 'tag::median', 'tag::weighted_median'),
    ('tag::median(with_p_square_quantile)', 'tag::median', 'tag::weighted_median'),
    ('tag::median(with_density)', 'tag::with_density_median', 'tag::with_density_weighted_median'),
    ('tag::median(with_p_square_cumulative_distribution)', 'tag::with_p_square_cumulative_distribution_median', 'tag::with_p_square_cumulative_distribution_weighted_median'),
    ('tag::p_square_quantile', 'tag::p_square_quantile', 'tag::weighted_p_square_quantile'),
    ('tag::p_square_cumulative_distribution', 'tag::p_square_cumulative_distribution', 'tag::weighted_p_square_cumulative_distribution'),
    ('tag::extended_p_square', 'tag::extended_p_square', 'tag::weighted_extended_p_square'),
    ('tag::extended_p_square_quantile', 'tag::extended_p_square_quantile', 'tag::weighted_extended_p_square_quantile'),
    ('tag::extended_p_square_quantile(linear)', 'tag::extended_p_square_quantile', 'tag::weighted_extended_p_square_quantile'),
    ('tag::extended_p_square_quantile(quadratic)', 'tag::extended_p_square_quantile_quadratic', 'tag::weighted_extended_p_square_quantile_quadratic'),
    ('tag::rolling_mean(lazy)', 'tag::lazy_rolling_mean', None), ('tag::rolling_mean(immediate)', 'tag::immediate_rolling_mean', None),
    ('tag::rolling_variance(lazy)', 'tag::lazy_rolling_variance', None), ('tag::rolling_variance(immediate)', 'tag::immediate_rolling_variance', None),
    ('tag::error_of<tag::mean>', 'tag::error_of<tag::mean>', None), ('tag::error_of<tag::mean(immediate)>', 'tag::error_of<tag::immediate_mean>', None), ('tag::error_of<tag::mean(lazy)>', 'tag::error_of<tag::mean>', None),
    ('tag::droppable<tag::mean(immediate)>', 'tag::droppable<tag::immediate_mean>', 'tag::droppable<tag::immediate_weighted_mean>'),
    ('tag::droppable<tag::sum>', 'tag::droppable<tag::sum>', 'tag::droppable<tag::weighted_sum>'),
    ('tag::weighted_mean(lazy)', 'tag::weighted_mean', None), ('tag::weighted_mean(immediate)', 'tag::immediate_weighted_mean', None),
    ('tag::weighted_variance(lazy)', 'tag::lazy_weighted_variance', None), ('tag::weighted_variance(immediate)', 'tag::weighted_variance', None),
    ('tag::weighted_sum(kahan)', 'tag::weighted_sum_kahan', None),
    ('tag::weighted_mean_of_variates%s(lazy)' % V, 'tag::weighted_mean_of_variates%s' % V, None), ('tag::weighted_mean_of_variates%s(immediate)' % V, 'tag::immediate_weighted_mean_of_variates%s' % V, None),
    ('tag::weighted_median(with_p_square_quantile)', 'tag::weighted_median', None), ('tag::weighted_median(with_density)', 'tag::with_density_weighted_median', None),
    ('tag::weighted_median(with_p_square_cumulative_distribution)', 'tag::with_p_square_cumulative_distribution_weighted_median', None),
    ('tag::weighted_extended_p_square_quantile(linear)', 'tag::weighted_extended_p_square_quantile', None), ('tag::weighted_extended_p_square_quantile(quadratic)', 'tag::weighted_extended_p_square_quantile_quadratic', None),
]
for d in ('left', 'right'):
    for n in ('peaks_over_threshold', 'pot_quantile', 'pot_tail_mean'):
        SPELL += [('tag::%s<%s>' % (n, d), 'tag::%s<%s>' % (n, d), 'tag::weighted_%s<%s>' % (n, d)),
                  ('tag::%s<%s>(with_threshold_value)' % (n, d), 'tag::%s<%s>' % (n, d), 'tag::weighted_%s<%s>' % (n, d)),
                  ('tag::%s<%s>(with_threshold_probability)' % (n, d), 'tag::%s_prob<%s>' % (n, d), 'tag::weighted_%s_prob<%s>' % (n, d)),
                  ('tag::weighted_%s<%s>(with_threshold_value)' % (n, d), 'tag::weighted_%s<%s>' % (n, d), None),
                  ('tag::weighted_%s<%s>(with_threshold_probability)' % (n, d), 'tag::weighted_%s_prob<%s>' % (n, d), None)]
    SPELL += [('tag::tail_quantile<%s>' % d, 'tag::tail_quantile<%s>' % d, 'tag::weighted_tail_quantile<%s>' % d),
              ('tag::non_coherent_tail_mean<%s>' % d, 'tag::non_coherent_tail_mean<%s>' % d, 'tag::non_coherent_weighted_tail_mean<%s>' % d)]
    A = '<%s, double, tag::covariate1>' % d
    for k in ('absolute', 'relative'):
        SPELL += [('tag::tail_variate_means%s(%s)' % (A, k), 'tag::%s_tail_variate_means%s' % (k, A), 'tag::%s_weighted_tail_variate_means%s' % (k, A)),
                  ('tag::weighted_tail_variate_means%s(%s)' % (A, k), 'tag::%s_weighted_tail_variate_means%s' % (k, A), None)]
# variants of one feature: the extractor of the feature finds each of them
SAME = [('tag::mean', ['tag::immediate_mean', 'tag::weighted_mean', 'tag::immediate_weighted_mean', 'tag::droppable<tag::immediate_mean>']),
        ('tag::sum', ['tag::sum_kahan', 'tag::weighted_sum', 'tag::weighted_sum_kahan']), ('tag::sum_of_weights', ['tag::sum_of_weights_kahan']),
        ('tag::mean_of_weights', ['tag::immediate_mean_of_weights']),
        ('tag::mean_of_variates' + V, ['tag::immediate_mean_of_variates' + V, 'tag::weighted_mean_of_variates' + V, 'tag::immediate_weighted_mean_of_variates' + V]),
        ('tag::variance', ['tag::lazy_variance', 'tag::weighted_variance', 'tag::lazy_weighted_variance']),
        ('tag::moment<3>', ['tag::weighted_moment<3>']), ('tag::skewness', ['tag::weighted_skewness']), ('tag::kurtosis', ['tag::weighted_kurtosis']),
        ('tag::density', ['tag::weighted_density']), ('tag::p_square_quantile', ['tag::weighted_p_square_quantile']), ('tag::extended_p_square', ['tag::weighted_extended_p_square']),
        ('tag::p_square_cumulative_distribution', ['tag::weighted_p_square_cumulative_distribution']),
        ('tag::median', ['tag::with_density_median', 'tag::with_p_square_cumulative_distribution_median', 'tag::weighted_median', 'tag::with_density_weighted_median', 'tag::with_p_square_cumulative_distribution_weighted_median']),
        ('tag::rolling_mean', ['tag::immediate_rolling_mean', 'tag::lazy_rolling_mean']), ('tag::rolling_variance', ['tag::immediate_rolling_variance', 'tag::lazy_rolling_variance']),
        ('tag::quantile', ['tag::%s%s' % (n, s) for n, s in (('extended_p_square_quantile', ''), ('extended_p_square_quantile_quadratic', ''), ('weighted_extended_p_square_quantile', ''), ('pot_quantile', '<left>'), ('pot_quantile_prob', '<right>'), ('weighted_pot_quantile', '<left>'), ('weighted_pot_quantile_prob', '<right>'), ('tail_quantile', '<left>'), ('weighted_tail_quantile', '<right>'))]),
        ('tag::tail_mean', ['tag::coherent_tail_mean<left>', 'tag::coherent_tail_mean<right>', 'tag::pot_tail_mean<left>', 'tag::pot_tail_mean_prob<right>', 'tag::weighted_pot_tail_mean<left>', 'tag::weighted_pot_tail_mean_prob<right>']),
        ('tag::non_coherent_tail_mean<left>', ['tag::non_coherent_weighted_tail_mean<left>', 'tag::non_coherent_tail_mean<right>']),
        ('tag::abstract_covariance', ['tag::covariance' + V, 'tag::weighted_covariance' + V])]
# features that must not be confused with each other
APART = ['tag::count', 'tag::sum', 'tag::mean', 'tag::min', 'tag::max', 'tag::variance', 'tag::skewness', 'tag::kurtosis', 'tag::moment<2>', 'tag::moment<3>', 'tag::density', 'tag::median', 'tag::quantile', 'tag::tail_mean',
         'tag::p_square_quantile', 'tag::p_square_cumulative_distribution', 'tag::extended_p_square', 'tag::rolling_mean', 'tag::rolling_variance', 'tag::rolling_sum', 'tag::rolling_count', 'tag::rolling_moment<2>', 'tag::sum_of_weights', 'tag::mean_of_weights',
         'tag::mean_of_variates' + V, 'tag::sum_of_variates' + V, 'tag::covariance' + V, 'tag::tail<left>', 'tag::tail_weights<left>', 'tag::tail_variate<double, tag::covariate1, left>', 'tag::error_of<tag::mean>', 'tag::error_of<tag::immediate_mean>',
         'tag::non_coherent_tail_mean<left>', 'tag::absolute_tail_variate_means<left, double, tag::covariate1>', 'tag::relative_tail_variate_means<left, double, tag::covariate1>', 'tag::peaks_over_threshold<left>']


def lines():
    out = []

    def add(rule, cond):
        out.append((rule, 'static_assert(%s, "");' % cond))
    for s, f, w in SPELL:
        add('%s stands for %s' % (s, f), 'std::is_same<as_feature<%s >::type, %s >::value' % (s, f))
        if w:
            add('%s in a set with weights stands for %s' % (s, w), 'std::is_same<as_weighted_feature<as_feature<%s >::type>::type, %s >::value' % (s, w))
            if 'tail_variate_means' not in s:  # a scalar variate has no weighted tail_variate_means to hold
                add('accumulator of %s in a set with weights is that of %s' % (s, w), 'std::is_same<holder<%s, double, %s >::type, %s >::value' % (s, f, w))
        if not s.startswith('tag::weighted') and 'weights' not in s:
            add('accumulator of %s in a set is that of %s' % (s, f), 'std::is_same<holder<%s, void, %s >::type, %s >::value' % (s, f, f))
    for f, vs in SAME:
        for v in vs:
            add('%s provides %s' % (v, f), 'std::is_same<feature_of<as_feature<%s >::type>::type, feature_of<%s >::type>::value' % (v, f))
    for i, a in enumerate(APART):
        for b in APART[i + 1:]:
            add('%s and %s are different features' % (a, b), '!std::is_same<feature_of<%s >::type, feature_of<%s >::type>::value' % (a, b))
    return out


HOLD = '''#include <type_traits>
// the tag of the accumulator that a set holds for a feature
template<typename F, typename W, typename K> struct holder
{
    typedef accumulator_set<double, stats<F>, W> S;
    typedef typename std::remove_reference<decltype(find_accumulator<K>(std::declval<S &>()))>::type acc;
    typedef typename acc::feature_tag type;
};
'''


def main_spell(pid):
    t0 = time.time()
    rep = Rep()
    L = lines()
    build.ensure_tool()
    N = 60
    parts = [L[i:i + N] for i in range(0, len(L), N)]

    def one(p):
        head = PRE + HOLD
        return p, head.count('\n'), build.parse('spell', head + '\n'.join(x for _, x in p) + '\n')
    with ThreadPoolExecutor(8) as ex:
        for p, off, (out, err) in ex.map(one, parts):
            rep.units += 1
            bad = {}
            if out is None:
                for l in err.splitlines():
                    m = re.match(r'.*/gen/spell-[0-9a-f]+\.cpp:(\d+):', l)
                    if m:
                        n = int(m.group(1)) - off - 1
                        if n >= 0:
                            bad.setdefault(n, '')
                            if 'error' in l:
                                bad[n] = l.split(' error: ')[-1][:200]
                if not bad:
                    raise build.BrokenAnalysis('headers do not compile: %s' % build.first_errors(err))
            for n, (rule, text) in enumerate(p):
                if n in bad:
                    rep.bad(rule, 'as_feature / as_weighted_feature / feature_of of the feature named', 'the type-level assertion fails: %s (%s)' % (text[:200], bad[n]), 'type-level assertion')
                else:
                    rep.ok('type-level assertion')
    return finish(pid, rep, t0, 'type-level assertions over the mapping of spellings to features, decided by the type checker', min_obl=100)


# ---------------------------------------------------------------- programs that must not compile
# (rule, anchor, declarations, correct statement, wrong statement)
T = 'include/boost/accumulators/'
S_ = T + 'statistics/'
WRONG = []


def wrong(rule, where, decl, right, bad):
    WRONG.append((rule, where, decl, right, bad))


def S(feats, w=''):
    return 'accumulator_set<double, stats<%s >%s >' % (feats, w)


for f, ex in (('tag::mean', 'mean(a)'), ('tag::variance', 'variance(a)'), ('tag::max', '(max)(a)'), ('tag::median', 'median(a)'), ('tag::skewness', 'skewness(a)'), ('tag::sum', 'sum(a)'), ('tag::moment<3>', '(moment<3>)(a)')):
    wrong('extracting %s from a set that does not contain it' % f, T + 'framework/extractor.hpp', '', '%s a; a(1.); (void)%s;' % (S(f), ex), '%s a; a(1.); (void)%s;' % (S('tag::min'), ex))
wrong('extracting moment<3> from a set with moment<2>', S_ + 'moment.hpp', '', '%s a; (void)(moment<3>)(a);' % S('tag::moment<3>'), '%s a; (void)(moment<3>)(a);' % S('tag::moment<2>'))
wrong('dropping a feature that is not in the set', T + 'framework/accumulator_set.hpp', '', '%s a; a.drop<tag::mean>();' % S('tag::droppable<tag::mean>'), '%s a; a.drop<tag::max>();' % S('tag::droppable<tag::mean>'))
for kw, feats, arg in (('cache size of tail', 'tag::tail<right>', 'tag::tail<right>::cache_size = 3'), ('cache size of tail_quantile', 'tag::tail_quantile<left>', 'tag::tail<left>::cache_size = 3'),
                       ('window length of rolling_window', 'tag::rolling_window', 'tag::rolling_window::window_size = 3'), ('window length of rolling_mean', 'tag::rolling_mean', 'tag::rolling_window::window_size = 3'),
                       ('window length of rolling_variance', 'tag::rolling_variance', 'tag::rolling_window::window_size = 3'),
                       ('threshold of peaks_over_threshold', 'tag::peaks_over_threshold<right>', 'tag::peaks_over_threshold<right>::threshold_value = 1.'),
                       ('number of cells of p_square_cumulative_distribution', 'tag::p_square_cumulative_distribution', 'tag::p_square_cumulative_distribution::num_cells = 3'),
                       ('number of bins of density', 'tag::density', 'tag::density::cache_size = 3, tag::density::num_bins = 2'),
                       ('probabilities of extended_p_square', 'tag::extended_p_square', 'tag::extended_p_square::probabilities = p')):
    wrong('constructing a set without the %s' % kw, S_ + '*.hpp (constructors)', 'std::vector<double> p(2, .5); (void)p;', '%s a(%s); a(1.);' % (S(feats), arg), '%s a; a(1.);' % S(feats))
wrong('constructing a density without the cache size', S_ + 'density.hpp', '', '%s a(tag::density::cache_size = 3, tag::density::num_bins = 2); a(1.);' % S('tag::density'), '%s a(tag::density::num_bins = 2); a(1.);' % S('tag::density'))
for f, ex in (('tag::mean', 'mean(a)'), ('tag::sum', 'sum(a)'), ('tag::variance', 'variance(a)'), ('tag::sum_of_weights', 'sum_of_weights(a)'), ('tag::moment<2>', '(moment<2>)(a)'), ('tag::median', 'median(a)'), ('tag::kurtosis', 'kurtosis(a)')):
    wrong('pushing a sample without a weight into a set with weights (%s)' % f, S_ + 'weighted_*.hpp', '', '%s a; a(1., weight = 2.); (void)%s;' % (S(f, ', double'), ex), '%s a; a(1.); (void)%s;' % (S(f, ', double'), ex))
for f in ('tag::covariance<double, tag::covariate1>', 'tag::mean_of_variates<double, tag::covariate1>', 'tag::sum_of_variates<double, tag::covariate1>'):
    wrong('pushing a sample without its variate (%s)' % f, S_ + '*.hpp', '', '%s a; a(1., covariate1 = 2.);' % S(f), '%s a; a(1.);' % S(f))
wrong('pushing a sample without its variate (tail_variate)', S_ + 'tail_variate.hpp', '', '%s a(tag::tail<right>::cache_size = 2); a(1., covariate1 = 2.);' % S('tag::tail_variate<double, tag::covariate1, right>'), '%s a(tag::tail<right>::cache_size = 2); a(1.);' % S('tag::tail_variate<double, tag::covariate1, right>'))
for d, n in (('tag::tail_quantile<right>', 'quantile'), ('tag::non_coherent_tail_mean<right>', 'non_coherent_tail_mean')):
    wrong('extracting %s without a probability' % n, S_ + '*.hpp (result)', '', '%s a(tag::tail<right>::cache_size = 2); a(1.); (void)%s(a, quantile_probability = .5);' % (S(d), n), '%s a(tag::tail<right>::cache_size = 2); a(1.); (void)%s(a);' % (S(d), n))
wrong('extracting pot_quantile without a probability', S_ + 'pot_quantile.hpp', '', '%s a(pot_threshold_value = 1.); a(1.); (void)quantile(a, quantile_probability = .5);' % S('tag::pot_quantile<right>'), '%s a(pot_threshold_value = 1.); a(1.); (void)quantile(a);' % S('tag::pot_quantile<right>'))
wrong('extracting extended_p_square_quantile without a probability', S_ + 'extended_p_square_quantile.hpp', 'std::vector<double> p(3, .5); (void)p;', '%s a(extended_p_square_probabilities = p); a(1.); (void)quantile(a, quantile_probability = .5);' % S('tag::extended_p_square_quantile'), '%s a(extended_p_square_probabilities = p); a(1.); (void)quantile(a);' % S('tag::extended_p_square_quantile'))
wrong('weighted statistics in a set without weights', S_ + 'weighted_mean.hpp', '', '%s a; a(1., weight = 1.); (void)weighted_mean(a);' % S('tag::weighted_mean', ', double'), '%s a; a(1.); (void)weighted_mean(a);' % S('tag::weighted_mean'))
wrong('assigning to a set of other features', T + 'framework/accumulator_set.hpp', '', '%s a, b; a = b;' % S('tag::mean'), '%s a; %s b; a = b;' % (S('tag::mean'), S('tag::max')))
wrong('passing to the extractor of one set type a value that is no set', T + 'framework/extractor.hpp', '', '%s a; (void)mean(a);' % S('tag::mean'), '(void)mean(1.);')


def main_reject(pid):
    t0 = time.time()
    rep = Rep()
    build.ensure_tool()

    def prog(decl, st):
        return PRE + 'void f()\n{\n    %s\n    %s\n}\n' % (decl, st)

    def one(w):
        rule, where, decl, right, bad = w
        return w, build.parse('acc', prog(decl, right)), build.parse('rej', prog(decl, bad))
    with ThreadPoolExecutor(8) as ex:
        for (rule, where, decl, right, bad), (o1, e1), (o2, e2) in ex.map(one, WRONG):
            rep.units += 1
            if o1 is None:
                rep.bad(rule + ': the correct program compiles', where, 'the correct program %s no longer compiles: %s' % (right, ' | '.join(build.first_errors(e1))), 'witness that must compile')
                continue
            rep.ok('witness that must compile')
            if o2 is None:
                rep.ok('witness that must not compile')
            else:
                rep.bad(rule + ' is rejected by the compiler', where, 'this program compiles: %s %s' % (decl, bad), 'witness that must not compile')
    return finish(pid, rep, t0, 'pairs of programs that differ in one misuse: the correct one is accepted and the other rejected by the type checker', min_obl=40)
