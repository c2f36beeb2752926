"""Minimum and maximum; compensated summation."""
from checks.formulas import *
import itertools
from prog import FLOATS, INTS


def rules_mm(e):
    R = []
    ty = catalog.BY[e.c.name].sample
    if ty in FLOATS:
        hi = limit(ty, 'max')
        lo = neg(hi)
    else:
        from prog import WIDTH
        w = WIDTH[{'unsigned': 'unsigned int'}.get(ty, ty)]
        u = ty.startswith('unsigned')
        hi = const(2 ** w - 1 if u else 2 ** (w - 1) - 1)
        lo = const(0 if u else -2 ** (w - 1))
    rng = [le(lo, e.x), le(e.x, hi)]
    if 'get_min' in e.c.fns:
        R.append(('min is the smaller of the sample and the minimum so far', e.A('min'), ite(lt(e.x, e.B('min')), e.x, e.B('min')), rng))
        R.append(('min of one sample is that sample', e.F('min'), e.x, rng))
    if 'get_max' in e.c.fns:
        R.append(('max is the larger of the sample and the maximum so far', e.A('max'), ite(lt(e.B('max'), e.x), e.x, e.B('max')), rng))
        R.append(('max of one sample is that sample', e.F('max'), e.x, rng))
    return R


def run_mm(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        e = Env(c, rep)
        try:
            R = rules_mm(e)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
            continue
        rep.units += 1
        eval_rules(rep, c, R, e)
        for it in e.its:
            rep.see(it)
    return rep


def main_mm(pid):
    t0 = time.time()
    rep = Rep()
    ents = [e for e in catalog.E if any(k in ('min', 'max') for k, *_ in e.get)]
    for r in pmap('checks.extrema', 'run_mm', ents, size=4):
        rep.merge(r)
    return finish(pid, rep, t0, 'min and max as relations of extractor value numbers before/after one update and after the first sample, for an arbitrary sample of each type', assumptions=ASSUME, min_obl=60)


# ---------------------------------------------------------------- compensated summation
def gates(t):
    out = []
    for x in subterms(t).values():
        if x.op == 'ite' and x.args[0] not in out:
            out.append(x.args[0])
    return out


def branches(ts):
    g = []
    for t in ts:
        for c in gates(t):
            if c not in g:
                g.append(c)
    if len(g) > 4:
        raise Unsupported('too many gates')
    for v in itertools.product((TRUE, FALSE), repeat=len(g)):
        m = dict(zip(g, v))
        yield m, [subst(t, m) for t in ts]


def kahan(rep, c, inc, key):
    rep.units += 1
    it0 = c.interp()
    S = c.state(it0)
    from reach import leaf_terms
    sy = {p: t for p, t in leaf_terms(it0, it0.st[S[0]]).items() if t is not None and t.op == 'sym' and (t.attr or {}).get('ty') in FLOATS}
    g = it0.term(c.get(it0, S, key))
    post = {}
    deltas = []
    for mode in ('exact', 'round'):
        it = c.interp()
        S = c.state(it)
        if mode == 'round':
            it.rounding = deltas
        args = {n: it.fresh((n,), ti) for _, n, ti in c.fns['up']['params'][1:]}
        c.update(it, S, **args)
        c.throws(it)
        rep.see(it)
        post[mode] = leaf_terms(it, it.st[S[0]])
    where = where_of(c, it)
    rule = '%s: %s' % (c.name, 'the rounding error of an update does not grow with the running sum')
    add_ = inc({k: v for k, v in args.items()})
    ps = [p for p in sy if post['exact'][p] is not None]
    small = [p for p in ps if equal(post['exact'][p], ZERO) or equal(post['exact'][p], sy[p])]
    big = [p for p in ps if p not in small]
    rep.obl += 0
    if not deltas or not big:
        raise Unsupported('no floating-point update of the running sum')
    zero = {d: ZERO for d in deltas}
    lastwhy = 'no combination of the running sum with its compensation is preserved exactly'
    for sg in itertools.product((0, 1, -1), repeat=len(small)):
        for b in big:
            V = sy[b]
            W = post['exact'][b]
            Wr = post['round'][b]
            for p, q in zip(small, sg):
                if q:
                    V = V + const(q) * sy[p]
                    W = W + const(q) * post['exact'][p]
                    Wr = Wr + const(q) * post['round'][p]
            if not equal(W, V + add_):
                continue
            s2 = sym('shift')
            s2.attr = {'num': True}
            mv = {sy[b]: add(sy[b], s2)}
            if not equal(sub(g, V), subst(sub(g, V), mv)):
                continue
            ok = True
            for m, (w,) in branches([Wr]):
                for d in deltas:
                    z = {k: v for k, v in zero.items() if k is not d}
                    a = subst(w, z)
                    co = (subst(a, {d: ONE}) - subst(a, {d: const(-1)})) / 2
                    if not equal(co, subst(co, mv)):
                        ok = False
                        lastwhy = 'a rounding error proportional to the running sum remains: coefficient %s of operation %s' % (show(co)[:200], d.args[0])
                        break
                if not ok:
                    break
            if ok:
                rep.ok('first-order rounding error')
                return
    rep.bad(rule, where, lastwhy, 'first-order rounding error')


K = dict(sumk=('sum', lambda a: a['x']), varsumk=('sumv', lambda a: a['v']), wsumk=('sum', lambda a: a['x'] * a['w']), sumwk=('sum_of_weights', lambda a: a['w']),
         wvarsumk=('sumv', lambda a: a['v'] * a['w']))


def run_k(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        key, inc = K[base(c.name)]
        e = Env(c, rep)
        try:
            z = inc(e.args)
            R = [('the sum adds every item once while the compensation is zero', e.F(key), z, []), ('sum of a new set', e.I(key), ZERO, [])]
            eval_rules(rep, c, R, e)
            if c.name == base(c.name):
                kahan(rep, c, inc, key)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
            continue
    return rep


def main_k(pid):
    t0 = time.time()
    rep = Rep()
    for r in pmap('checks.extrema', 'run_k', [e for e in catalog.E if base(e.name) in K], size=2):
        rep.merge(r)
    return finish(pid, rep, t0, 'first-order rounding-error analysis: every floating-point operation of the update is given an error symbol; the combination of running sum and compensation that exact arithmetic preserves must have no first-order error term containing the running sum',
                  assumptions=ASSUME[1:] + ['first-order model of rounding: every operation result is exact*(1+delta)'], min_obl=12)
