"""Delivery of updates and parameters, decided with probe accumulators defined in witness/probe.hpp."""
from core import *
from checks.formulas import compile_failures
from reach import leaf_terms
import random


class Raw:
    def __init__(self, name, src, info=None):
        self.name, self.src, self.info = name, src, info

    def source(self, ser=True):
        return 'namespace witness { namespace %s {\nusing namespace pr;\n%s\n} }' % (self.name, self.src)


PRE = '#include "probe.hpp"\n'
M1 = const(-1)


def ps(n, first=''):
    return ''.join('%s, double const &e%d' % ('' if i or first else '', i) for i in range(1, n + 1))


FW_ASSUME = ['the framework is type-generic: probe accumulators stand for arbitrary accumulators',
             'the maximal number of arguments is BOOST_ACCUMULATORS_MAX_ARGS (15)']


def kv(n, sep=', '):
    return sep.join('k%d = e%d' % (i, i) for i in range(1, n + 1))


def dl(n):
    return ''.join(', double const &e%d' % i for i in range(1, n + 1))


# ---------------------------------------------------------------- arities
def arity_entries():
    out = []
    for setname, feats, wt in (('s1', 'ptag::P', ''), ('s2', 'ptag::Q, ptag::P', ''), ('s3', 'ptag::P, tag::count', ''), ('s4', 'ptag::DP', ''), ('sw', 'ptag::P', ', double')):
        L = ['typedef accumulator_set<double, stats<%s >%s > S; typedef ptag::P F;' % (feats, wt)]
        L.append('double get_hits(S const &s) { return find_accumulator<F>(s).hits; } double get_x(S const &s) { return find_accumulator<F>(s).x; } double get_is(S const &s) { return find_accumulator<F>(s).is; }')
        L.append('double get_w(S const &s) { return find_accumulator<F>(s).w; } double get_iw(S const &s) { return find_accumulator<F>(s).iw; }')
        L.append('BOOST_PP_REPEAT_FROM_TO(1, 16, PG, _)')
        L.append('void up(S &s) { s(); }')
        for n in range(0, 15):
            # n named arguments besides the sample
            L.append('void up_p%d(S &s, double const &x%s) { s(x%s); }' % (n, dl(n), ', ' + kv(n) if n else ''))
            L.append('void up_n%d(S &s, double const &x%s) { s(%ssample = x); }' % (n, dl(n), kv(n) + ', ' if n else ''))
            L.append('S mk_p%d(double const &x%s) { return S(x%s); }' % (n, dl(n), ', ' + kv(n) if n else ''))
            L.append('S mk_n%d(double const &x%s) { return S(%ssample = x); }' % (n, dl(n), kv(n) + ', ' if n else ''))
        for n in range(1, 16):
            L.append('void up_k%d(S &s%s) { s(%s); }' % (n, dl(n), kv(n)))
            L.append('S mk_k%d(%s) { return S(%s); }' % (n, dl(n)[2:], kv(n)))
            L.append('double ex_k%d(S const &s%s) { return px::P(s, %s); }' % (n, dl(n), kv(n)))
            L.append('double er_k%d(S const &s%s) { return extract_result<ptag::P>(s, %s); }' % (n, dl(n), kv(n)))
        L.append('double ex_k0(S const &s) { return px::P(s); }')
        L.append('double er_k0(S const &s) { return extract_result<ptag::P>(s); }')
        L.append('S mk() { return S(); }')
        out.append(Raw('ar_' + setname, '\n'.join(L)))
    L = ['typedef accumulator_set<double, stats<ptag::TP<int> > > S; typedef ptag::TP<int> F;', 'void up(S &s) { s(); }', 'double ex_k0(S const &s) { return (px::TP<int>)(s); }']
    for n in range(1, 15):
        L.append('double ex_k%d(S const &s%s) { return (px::TP<int>)(s, %s); }' % (n, dl(n), kv(n)))
    out.append(Raw('ar_tp', '\n'.join(L)))
    return out


def fargs(c, it, f, first):
    """symbolic arguments by parameter name"""
    return c.args(it, f, first)


def wh_fw(c, it, names=('operator()', 'visit', 'visit_if', 'extract_result', 'do_extract', 'make_acc_list', 'call', 'accumulator_set', 'find_accumulator')):
    w = []
    for i in it.nfn:
        f = c.p.functions[i]
        fl = c.p.files[f['file']]
        if fl.startswith('/repo/') and '/framework/' in fl and f['name'] in names:
            w.append('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))
    return '; '.join(sorted(set(w))[:5]) or 'witness ' + c.name


def val(name):
    s = sym(name)
    s.attr = {'num': True, 'ty': 'double'}
    return s


def expect(rep, c, it, S, where, rule, exp, kind):
    for k, want in exp.items():
        got = it.term(c.get(it, S, k))
        rep.same('%s: %s: %s' % (c.name, rule, k), where, got, want, kind=kind)


def deliver(rep, c):
    for f in sorted(c.fns):
        if not f.startswith('up'):
            continue
        it = c.interp()
        S = c.state(it)
        b = it.term(c.get(it, S, 'hits'))
        a = c.args(it, f, [Ref(S)])
        it.invoke(c.fns[f], None, a)
        c.throws(it)
        rep.see(it)
        vals = {nm: it.term(it.deval(v)) for (_, nm, _), v in zip(c.fns[f]['params'], a)}
        exp = {'hits': b + 1, 'x': vals.get('x', M1), 'w': M1}
        for i in range(1, 16):
            exp['a%d' % i] = vals.get('e%d' % i, M1)
        expect(rep, c, it, S, wh_fw(c, it), 'call with %d arguments (%s)' % (len(vals) - 1, f), exp, 'argument delivered')


def construct(rep, c):
    for f in sorted(c.fns):
        if not f.startswith('mk'):
            continue
        it = c.interp()
        a = c.args(it, f, [])
        S = it.root(it.invoke(c.fns[f], None, a), 'S')
        c.throws(it)
        rep.see(it)
        vals = {nm: it.term(it.deval(v)) for (_, nm, _), v in zip(c.fns[f]['params'], a)}
        exp = {'hits': ZERO, 'is': vals.get('x', M1), 'iw': M1}
        for i in range(1, 16):
            exp['i%d' % i] = vals.get('e%d' % i, M1)
        expect(rep, c, it, S, wh_fw(c, it), 'construction with %d arguments (%s)' % (len(vals), f), exp, 'constructor parameter delivered')


def extraction(rep, c):
    for f in sorted(c.fns):
        if not f.startswith(('ex_', 'er_')):
            continue
        it = c.interp()
        S = c.state(it)
        before = leaf_terms(it, it.st[S[0]])
        a = c.args(it, f, [Ref(S)])
        v = it.term(it.deval(it.invoke(c.fns[f], None, a)))
        c.throws(it)
        rep.see(it)
        vals = {nm: it.term(it.deval(x)) for (_, nm, _), x in zip(c.fns[f]['params'], a) if nm.startswith('e')}
        want = const(-18)
        for i in range(1, 16):
            want = want + const(100 * i) * vals.get('e%d' % i, M1)
        rep.same('%s: extraction with %d parameters (%s)' % (c.name, len(vals), f), wh_fw(c, it), v, want, kind='extraction parameter delivered')


# ---------------------------------------------------------------- dependency graphs
DEPS = dict(A=[], Z=[], Y=['Z'], B=['A'], B2=['Y'], C=['B'], D=['B', 'C'], E=['D', 'A'], G=['A', 'B', 'Z'], H=['E', 'G'])
DEPS['L0'] = []
for _k in range(9):
    DEPS['M%d' % _k] = ['L%d' % _k]
    DEPS['L%d' % (_k + 1)] = ['L%d' % _k, 'M%d' % _k]
GRAPHS = ['A', 'C', 'E', 'H', 'A,B,C,D,E', 'E,D,C,B,A', 'C,E', 'H,A', 'A,H', 'G,E', 'Z,H,C', 'D,B,C', 'A,A,B', 'B2', 'C,B2', 'B2,C', 'E,B2', 'B2,E', 'H,B2', 'Z,G,B2', 'D,Y,B2', 'H,Y,Z,A,B,C,D,E,G', 'L4', 'L2,M3,L0']


def closure(fs):
    """features present in the set: name of the provider by feature"""
    prov = {}
    for f in fs:
        prov.setdefault('B' if f == 'B2' else f, f)
    todo = list(prov.values())
    while todo:
        f = todo.pop(0)
        for d in DEPS[f]:
            if d not in prov:
                prov[d] = d
                todo.append(d)
    return prov


def graph_entries():
    out = []
    for i, gsrc in enumerate(GRAPHS):
        fs = gsrc.split(',')
        prov = closure(fs)
        forms = [('', 'stats<%s >' % ', '.join('ptag::' + f for f in fs)), ('w', 'stats<%s >' % ', '.join('ptag::' + f for f in fs))]
        if len(fs) > 1:
            forms.append(('f', 'features<%s >' % ', '.join('ptag::' + f for f in fs)))
            forms.append(('n', 'stats<features<%s >, ptag::%s >' % (', '.join('ptag::' + f for f in fs[:-1]), fs[-1])))
        for sfx, ty in forms:
            L = ['typedef accumulator_set<double, %s%s > S;' % (ty, ', double' if sfx == 'w' else '')]
            L.append('S mk() { return S(); }')
            L.append('void up(S &s, double const &x) { s(x%s); }' % (', weight = 2.0' if sfx == 'w' else ''))
            for f in prov:
                L.append('double get_%s(S const &s) { return find_accumulator<ptag::%s>(s).hits; } double get_%s_x(S const &s) { return find_accumulator<ptag::%s>(s).x; }' % (f, f, f, f))
                L.append('double get_%s_r(S const &s) { return extract_result<ptag::%s>(s); }' % (f, f))
                for j in (1, 2, 3):
                    L.append('double get_%s_d%d(S const &s) { return find_accumulator<ptag::%s>(s).d%d; }' % (f, j, f, j))
            # every accumulator of the set, requested or not
            L.append('template<class F> struct cnt { double &n; cnt(double &m) : n(m) {} template<class X> void operator()(X &a) const { if(boost::is_same<typename feature_of<F>::type, typename feature_of<typename X::feature_tag>::type>::value) n = n + 1; } };')
            for f in prov:
                L.append('void visit_%s(S &s, double &n) { s.visit(cnt<ptag::%s>(n)); }' % (f, f))
            out.append(Raw('gr%d%s' % (i, sfx), '\n'.join(L), (gsrc, prov)))
    return out


def order(rep, c, info):
    gsrc, prov = info
    for start in ('any', 'new'):
        it = c.interp()
        S = c.state(it) if start == 'any' else c.make(it)
        c.throws(it)
        x = val('x')
        b = {f: it.term(c.get(it, S, f)) for f in prov}
        c.update(it, S, x=x)
        c.throws(it)
        rep.see(it)
        where = wh_fw(c, it) + '; include/boost/accumulators/framework/depends_on.hpp make_accumulator_tuple'
        after = {f: it.term(c.get(it, S, f)) for f in prov}
        for f, impl in prov.items():
            r = 'set <%s>: ' % gsrc
            rep.same(c.name + ' ' + r + '%s is updated exactly once' % f, where, after[f], b[f] + 1, kind='updated once')
            rep.same(c.name + ' ' + r + '%s receives the sample' % f, where, it.term(c.get(it, S, f + '_x')), x, kind='sample delivered')
            rep.same(c.name + ' ' + r + 'the extractor of %s reads its accumulator' % f, where, it.term(c.get(it, S, f + '_r')), after[f], kind='extractor finds the accumulator')
            for j, d in enumerate(DEPS[impl]):
                rep.same(c.name + ' ' + r + '%s is updated before %s' % (d, f), where, it.term(c.get(it, S, '%s_d%d' % (f, j + 1))), after[d], kind='dependency first')
    for f in prov:
        it = c.interp()
        S = c.state(it)
        n = it.root(ZERO)
        it.invoke(c.fns['visit_' + f], None, [Ref(S), Ref(n)])
        c.throws(it)
        rep.same(c.name + ' set <%s>: visit meets the accumulator of %s exactly once' % (gsrc, f), wh_fw(c, it), it.term(it.read(n)), ONE, kind='visited once')


def work(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    infos = arg[1]
    for c in cases:
        rep.units += 1
        for fn_ in arg[0]:
            try:
                with limited(200):
                    if fn_ == 'order':
                        order(rep, c, infos[c.name])
                    else:
                        globals()[fn_](rep, c)
            except Exception as x:
                rep.unk(c.name + ' ' + fn_, 'not evaluated: %r' % x)
    return rep


def run(ents, fns, size=2):
    rep = Rep()
    infos = {e.name: e.info for e in ents}
    for r in pmap('checks.framework', 'work', ents, size=size, arg=(fns, infos), pre=PRE):
        rep.merge(r)
    return rep


def main_delivery(pid):
    t0 = time.time()
    rep = run([e for e in arity_entries() if e.name != 'ar_tp'], ['deliver'], 1)
    rep.merge(run(graph_entries(), ['order'], 4))
    return finish(pid, rep, t0, 'value numbers of the fields of probe accumulators after one call of the set, for every arity and argument form and for a family of dependency graphs', assumptions=FW_ASSUME, min_obl=1500)


def main_params(pid):
    t0 = time.time()
    rep = run(arity_entries(), ['construct', 'extraction'], 1)
    return finish(pid, rep, t0, 'value numbers of what probe accumulators receive on construction and on extraction, for every arity and argument form', assumptions=FW_ASSUME, min_obl=800)
