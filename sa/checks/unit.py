"""Weights equal to one: the weighted set reports what the unweighted one does."""
from checks.compose import *
import checks.compose as CO
import math

PRE = ''
PAIRS = []
WHAT = 'the unweighted set is the reference (%s)'


def pair(pid, name, rule, c, r, gen, **kw):
    PAIRS.append((pid, name, rule, c, r, gen, kw))


SCALE_SKIP = ('psq', 'median', 'qmedian', 'pcd', 'eps', 'tailw_left', 'tailw_right')
WSP = {s.name: s for s in CO.specs(True)}
for sp in CO.specs(False):
    if sp.name not in WSP:
        continue
    ws = WSP[sp.name]
    nm = 'un_' + sp.name
    skip = sp.skip
    if sp.name.startswith('tq_'):
        # the unweighted quantile wants one cached sample more than it uses
        def skip(k, i, e, left=sp.name == 'tq_left'):
            n = math.ceil(i * (e['p'] if left else 1 - e['p']))
            return n >= min(i, e['cap'])
    pair('C07', nm, '%s of ' + sp.name + ' with all weights one is that of the unweighted set',
         source(nm, ws.feats, ws, False, unit=True), source(nm + '_r', sp.feats, sp, False), history(sp, False), skip=skip, quick=4, runs=60, limit_s=20, prove_s=20)

# a weight of three counts like three samples (statistics that are functions of the weighted sample distribution)
for name in ('sum', 'mean', 'imean', 'min', 'max', 'moment2', 'moment3', 'moment5', 'lvariance', 'variance', 'skewness', 'kurtosis', 'varsum', 'varmean', 'varimean', 'covariance'):
    sp, ws = next(x for x in CO.specs(False) if x.name == name), WSP[name]
    nm = 'rp_' + name
    U = 'bool const &three, double const &x' + sp.args

    def gen(rnd, i, sp=sp):
        env, h, o = history(sp, False)(rnd, i)
        for d in h:
            d['three'] = rnd.random() < 0.5
        return env, h, o
    pair('C07', nm, '%s of ' + name + ' with weights one and three is that of the set in which the sample is pushed once or three times',
         Src(nm, 'typedef accumulator_set<double, stats<%s >, double> S;\nS mk() { return S(); }\nvoid up(S &s, %s) { if(three) s(x, weight = 3.0%s); else s(x, weight = 1.0%s); }\n%s' % (', '.join(ws.feats), U, ws.call, ws.call, '\n'.join(ws.gets))),
         Src(nm + '_r', 'typedef accumulator_set<double, stats<%s > > S;\nS mk() { return S(); }\nvoid up(S &s, %s) { if(three) { s(x%s); s(x%s); s(x%s); } else s(x%s); }\n%s' % (', '.join(sp.feats), U, sp.call, sp.call, sp.call, sp.call, '\n'.join(sp.gets))),
         gen, quick=4, runs=40, limit_s=20, prove_s=20)
# the unit of the weights does not matter
for name, ws in WSP.items():
    if name in ('sumw', 'meanw', 'varsum', 'sum', 'sumk') or name in SCALE_SKIP:
        continue
    nm = 'sc_' + name
    pair('C07', nm, '%s of weighted ' + name + ' is the same when all weights are three times as large',
         Src(nm, source(nm, ws.feats, ws, True).body.replace('weight = w', 'weight = 3.0 * w')), source(nm + '_r', ws.feats, ws, True), history(ws, True), skip=ws.skip, quick=4, runs=60, limit_s=20, prove_s=20)


def work(cases, bad, arg):
    return work_pairs(cases, bad, PAIRS)


def main(pid):
    return main_pairs(pid, 'unit', PAIRS, PRE, WHAT)
