"""external<>, reference<> and value<> features: results come from exactly the object they name."""
from checks.framework import *
import checks.framework as FWK

EX = 'typedef accumulator_set<double, stats<tag::sum, tag::count> > E; typedef E EE;'
PRE_ = FWK.PRE


def ents():
    out = []

    def add(name, L):
        out.append(Raw(name, '\n'.join(L), None))
    up = ['void up(S &s, double const &x) { s(x); }', 'void upe(E &e, double const &x) { e(x); }', 'double esum(E const &e) { return (sum)(e); } double ecount(E const &e) { return (count)(e); }']
    own = ['double get_count(S const &s) { return (count)(s); }']
    add('named', ['typedef accumulator_set<double, stats<tag::sum, tag::count> > E; typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, ptag::k1> > > S;', 'S mk() { return S(); }'] + up + own +
        ['double sum_of(S const &s, E const &e) { return (sum)(s, k1 = e); } double mean_of(S const &s, E const &e) { return (mean)(s, k1 = e); }'])
    add('named2', ['typedef accumulator_set<double, stats<tag::sum, tag::count> > E; typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, ptag::k2>, tag::external<tag::count, ptag::k1> > > S;', 'S mk() { return S(); }'] + up +
        ['double sum_of(S const &s, E const &e, E const &d) { return (sum)(s, k2 = e, k1 = d); } double count_of(S const &s, E const &e, E const &d) { return (count)(s, k1 = d, k2 = e); } double mean_of(S const &s, E const &e, E const &d) { return (mean)(s, k1 = d, k2 = e); }'])
    add('byref', ['typedef accumulator_set<double, stats<tag::sum, tag::count> > E; typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, ptag::k1>, tag::reference<E, ptag::k1> > > S;', 'S mk(E &e) { return S(k1 = e); }'] + up + own +
        ['double sum_of(S const &s) { return (sum)(s); } double mean_of(S const &s) { return (mean)(s); }'])
    add('byref3', ['typedef accumulator_set<double, stats<tag::sum, tag::count> > E; typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, ptag::k1, E> > > S;', 'S mk(E &e) { return S(k1 = e); }'] + up + own +
        ['double sum_of(S const &s) { return (sum)(s); } double mean_of(S const &s) { return (mean)(s); }'])
    add('valu', ['typedef accumulator_set<double, stats<tag::count, tag::value<double, ptag::k1>, tag::value<double, ptag::k2> > > S; S mk(double const &a, double const &b) { return S(k2 = b, k1 = a); } void up(S &s, double const &x) { s(x); }',
                  'void upk(S &s, double const &x, double const &y, double const &z) { s(x, k2 = y, k1 = z); }', 'double va(S const &s) { return value_tag<ptag::k1>(s); } double vb(S const &s) { return value_tag<ptag::k2>(s); } double v2(S const &s) { return (value<double, ptag::k1>)(s); }'])
    add('refer', ['typedef accumulator_set<double, stats<tag::count, tag::reference<double, ptag::k1>, tag::reference<double, ptag::k2> > > S; S mk(double &a, double &b) { return S(k2 = b, k1 = a); } void up(S &s, double const &x) { s(x); }',
                  'void upk(S &s, double const &x, double &y, double &z) { s(x, k2 = y, k1 = z); }', 'double &ra(S const &s) { return reference_tag<ptag::k1>(s); } double &rb(S const &s) { return reference_tag<ptag::k2>(s); } double &r2(S const &s) { return (reference<double, ptag::k1>)(s); } void assign(S const &s, double const &v) { reference_tag<ptag::k2>(s) = v; }'])
    W = 'typedef accumulator_set<void, stats<tag::sum_of_weights>, double> W;'
    WG = 'void upw(W &w, double const &v) { w(weight = v); } double wsum(W const &w) { return (sum_of_weights)(w); } void up(S &s, double const &x, double const &v) { s(x, weight = v); } S mk() { return S(); }'
    add('extw', [W, 'typedef accumulator_set<double, stats<tag::mean, tag::moment<2>, tag::moment<3>, tag::variance(lazy), tag::count>, external<double> > S;', WG,
                 'double get_sum(S const &s) { return (sum)(s); } double get_count(S const &s) { return (count)(s); } double mean_of(S const &s, W const &w) { return (mean)(s, weights = w); } double m2(S const &s, W const &w) { return (moment<2>)(s, weights = w); }',
                 'double m3(S const &s, W const &w) { return (moment<3>)(s, weights = w); } double var(S const &s, W const &w) { return (variance)(s, weights = w); } double wmean_of(S const &s, W const &w) { return (weighted_mean)(s, weights = w); } double sow(S const &s, W const &w) { return (sum_of_weights)(s, weights = w); }'])
    add('extwr', [W, 'typedef accumulator_set<double, stats<tag::mean, tag::reference<W, tag::weights> >, external<double> > S;', WG.replace('S mk() { return S(); }', 'S mk(W &w) { return S(weights = w); }'),
                  'double get_sum(S const &s) { return (sum)(s); } double mean_of(S const &s) { return (mean)(s); } double sow(S const &s) { return (sum_of_weights)(s); }'])
    return out


def root_of(c, it, fname, idx, nm):
    ti = c.fns[fname]['params'][idx][2]
    return it.root(Obj(c.p.rec_of(ti), {}, (nm,)), nm)


def call(c, it, f, *a):
    v = it.invoke(c.fns[f], None, [x if isinstance(x, (Ref, T)) else Ref(x) for x in a])
    r = it.term(it.deval(v))
    return r


def dbl(it, nm):
    return it.root(val(nm))


def where(c, it):
    w = []
    for i in it.nfn:
        f = c.p.functions[i]
        fl = c.p.files[f['file']]
        if fl.startswith('/repo/') and ('_accumulator' in fl or 'extractor' in fl) and f['name'] in ('extract_', 'result', 'do_extract'):
            w.append('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))
    return '; '.join(sorted(set(w))[:5]) or 'witness ' + c.name


def check_case(rep, c):
    it = c.interp()
    nm = c.name
    kind = 'routed value'

    def same(rule, a, b, assume=()):
        rep.same('%s: %s' % (nm, rule), where(c, it), a, b, assume, kind=kind)
    if nm in ('named', 'byref', 'byref3', 'named2'):
        E = root_of(c, it, 'upe', 0, 'E')
        D = root_of(c, it, 'upe', 0, 'D')
        if nm.startswith('byref'):
            S = it.root(it.invoke(c.fns['mk'], None, [Ref(E)]), 'S')
            for p in list(leaf_terms(it, it.st[S[0]])):
                pass
        else:
            S = c.state(it)
        ex = {'named': (E,), 'named2': (E, D)}.get(nm, ())
        for rnd in range(3):
            cnt = call(c, it, 'ecount', D) if nm == 'named2' else call(c, it, 'get_count', S)
            es = call(c, it, 'esum', E)
            st = ' (step %d)' % rnd
            same('the external feature returns the value of the external set' + st, call(c, it, 'sum_of', S, *ex), es)
            if nm == 'named2':
                same('each external feature uses its own set' + st, call(c, it, 'count_of', S, *ex), cnt)
            same('a dependent feature uses the external value' + st, call(c, it, 'mean_of', S, *ex), es / cnt, [lt(ZERO, cnt)])
            if rnd == 0:
                call(c, it, 'upe', E, dbl(it, 'y'))
                same('extern set counts', call(c, it, 'esum', E), es + val('y'))
            elif rnd == 1:
                call(c, it, 'up', S, dbl(it, 'x'))
                same('updating the set leaves the external set alone', call(c, it, 'esum', E), es)
                if nm != 'named2':
                    same('updating the set updates its own features', call(c, it, 'get_count', S), cnt + 1)
    elif nm == 'valu':
        a, b = dbl(it, 'a'), dbl(it, 'b')
        S = it.root(it.invoke(c.fns['mk'], None, [Ref(a), Ref(b)]), 'S')
        for rnd in range(3):
            same('value_tag returns the value given on construction (step %d)' % rnd, call(c, it, 'va', S), val('a'))
            same('values are kept apart by their tag (step %d)' % rnd, call(c, it, 'vb', S), val('b'))
            same('value<> returns the value given on construction (step %d)' % rnd, call(c, it, 'v2', S), val('a'))
            it.write(a, val('changed'))
            if rnd == 0:
                call(c, it, 'up', S, dbl(it, 'x'))
            else:
                call(c, it, 'upk', S, dbl(it, 'x'), dbl(it, 'y'), dbl(it, 'z'))
    elif nm == 'refer':
        a, b = dbl(it, 'a'), dbl(it, 'b')
        S = it.root(it.invoke(c.fns['mk'], None, [Ref(a), Ref(b)]), 'S')
        for rnd, (va, vb) in enumerate(((val('a'), val('b')), (val('a1'), val('b')), (val('a1'), val('b2')))):
            if rnd == 1:
                it.write(a, val('a1'))
            if rnd == 2:
                call(c, it, 'assign', S, dbl(it, 'b2'))
                same('assigning through the reference changes the referenced object', it.term(it.read(b)), val('b2'))
            same('reference_tag reads the referenced object (step %d)' % rnd, call(c, it, 'ra', S), va)
            same('references are kept apart by their tag (step %d)' % rnd, call(c, it, 'rb', S), vb)
            same('reference<> reads the referenced object (step %d)' % rnd, call(c, it, 'r2', S), va)
            call(c, it, 'up', S, dbl(it, 'x'))
            same('updating the set leaves the referenced object alone (step %d)' % rnd, it.term(it.read(a)), va)
            call(c, it, 'upk', S, dbl(it, 'x'), dbl(it, 'y'), dbl(it, 'z'))
            same('an argument of an update under the same keyword leaves the referenced object alone (step %d)' % rnd, it.term(it.read(a)), va)
            same('an argument of an update under the same keyword does not replace the reference (step %d)' % rnd, call(c, it, 'ra', S), va)
    elif nm in ('extw', 'extwr'):
        W = root_of(c, it, 'upw', 0, 'W')
        if nm == 'extwr':
            S = it.root(it.invoke(c.fns['mk'], None, [Ref(W)]), 'S')
        else:
            S = c.state(it)
        ex = (W,) if nm == 'extw' else ()
        for rnd in range(3):
            ws = call(c, it, 'wsum', W)
            sm = call(c, it, 'get_sum', S)
            st = ' (step %d)' % rnd
            pos = [lt(ZERO, ws)]
            mean = call(c, it, 'mean_of', S, *ex)
            same('the mean divides by the external sum of weights' + st, mean, sm / ws, pos)
            same('sum_of_weights is the external one' + st, call(c, it, 'sow', S, *ex), ws)
            if nm == 'extw':
                same('weighted_mean and mean agree' + st, call(c, it, 'wmean_of', S, *ex), sm / ws, pos)
                m2 = call(c, it, 'm2', S, *ex)
                m3 = call(c, it, 'm3', S, *ex)
                same('the lazy variance uses the external weights' + st, call(c, it, 'var', S, *ex), m2 - mean * mean, pos)
                if rnd == 0:
                    o2, o3 = m2 * ws, m3 * ws
                elif rnd == 1:
                    same('moment<2> is normalised by the external weights', m2 * ws, o2, pos)
                    same('moment<3> is normalised by the external weights', m3 * ws, o3, pos)
                elif rnd == 2:
                    x, v = val('x'), val('v')
                    same('moment<2> adds the weighted square', m2 * ws, o2 + x * x * v, pos)
                    same('moment<3> adds the weighted cube', m3 * ws, o3 + x * x * x * v, pos)
            if rnd == 0:
                call(c, it, 'upw', W, dbl(it, 'y'))
                same('the external sum of weights grows', call(c, it, 'wsum', W), ws + val('y'))
            elif rnd == 1:
                call(c, it, 'up', S, dbl(it, 'x'), dbl(it, 'v'))
                same('updating the set leaves the weight set alone', call(c, it, 'wsum', W), ws)
                same('updating the set adds the weighted sample', call(c, it, 'get_sum', S), sm + val('x') * val('v'))
    c.throws(it)
    rep.see(it)


def work2(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        rep.units += 1
        try:
            with limited(120):
                check_case(rep, c)
        except Exception as x:
            import traceback
            rep.unk(c.name, 'not evaluated: %r %s' % (x, traceback.format_exc()[-200:]))
    return rep


def main(pid):
    t0 = time.time()
    rep = Rep()
    for r in pmap('checks.routing', 'work2', ents(), size=1, pre=PRE_):
        rep.merge(r)
    return finish(pid, rep, t0, 'value numbers of the routed extractors against those of the object they name, before and after updates of either', assumptions=FW_ASSUME[:1], min_obl=50)
