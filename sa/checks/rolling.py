"""Rolling statistics describe exactly the last N samples."""
from checks.formulas import *
import checks.formulas as FM


class Env2(Env):
    """the state before is one that an update has just produced"""

    def B(self, key):
        if key not in self._b:
            if self.ba is None:
                it = self.c.interp()
                S = self.c.state(it)
                a0 = {n: it.fresh((n + '0',), ti) for _, n, ti in self.c.fns['up']['params'][1:]}
                self.c.update(it, S, **a0)
                self.c.throws(it)
                self.ba = (it, S, dict(it.st))
                self.its.append(it)
            self._b[key] = self._get(*self.ba, key)
        return self._b[key]

    def A(self, key):
        if self.fa is None:
            self.B('wn')
            it0, S, st = self.ba
            it = self.c.interp()
            it.st = dict(st)
            it.nroot = it0.nroot
            self.c.update(it, S, **self.args)
            self.c.throws(it)
            self.fa = (it, S, dict(it.st))
            self.its.append(it)
        if key not in self._a:
            self._a[key] = self._get(*self.fa, key)
        return self._a[key]


def kat(env, which, key, k):
    """getter taking a position"""
    it, S, st = env.ba if which == 'B' else (env.fa if which == 'A' else env.fi)
    it.st = dict(st)
    r = it.term(env.c.get(it, S, key, k=k))
    env.c.throws(it)
    return r


def buffer_of(env):
    env.B('wn')
    it, S, st = env.ba
    out = []
    for pth, v in it.leaves(st[S[0]]):
        if isinstance(v, T):
            for s in deps(v):
                if (s.attr or {}).get('ty', '').startswith('boost::circular_buffer<') and s not in out:
                    out.append(s)
    return out


def rules(env):
    e = env
    b = base(e.c.name)
    wn, an = e.B('wn'), e.A('wn')
    bufs = buffer_of(e)
    if len(bufs) != 1:
        raise Unsupported('window representation')
    N = cap_of(bufs[0]) - 1
    inv = [not_(lt(cap_of(bufs[0]), size_of(bufs[0]))), ge(N, 1)]
    full = eq(wn, N)
    w0 = kat(e, 'B', 'wat', ZERO)
    k = sym('k')
    k.attr = {'int': True, 'nn': True, 'ty': 'unsigned long'}
    R = []
    leave = lambda f: ite(full, f(w0), ZERO)
    if b.startswith('rwindow') or b == 'rcount':
        R.append(('the window holds at most N samples and grows by one until full', an, ite(full, N, wn + 1), inv))
        R.append(('the newest sample is last in the window', kat(e, 'A', 'wat', an - 1), e.x, inv))
        R.append(('the older samples keep their order and the oldest leaves', kat(e, 'A', 'wat', k), ite(full, kat(e, 'B', 'wat', k + 1), kat(e, 'B', 'wat', k)), inv + [lt(k, an - 1), ge(k, 0)]))
        R.append(('a new window is empty', e.I('wn'), ZERO, []))
        n = sym('n')
        n.attr = {'int': True, 'nn': True, 'ty': 'unsigned long'}
        it, S, st = e.ia
        cb = [v for p, v in it.leaves(st[S[0]]) if isinstance(v, T) and v.op == 'cbnew']
        if len(cb) == 1:
            R.append(('the window has the requested length', cap_of(cb[0]) - 1, n, []))
        R.append(('the first sample enters the window', e.F('wn'), ONE, [ge(n, 1)]))
    if 'get_w1n' in e.c.fns:
        R.append(('the extended window keeps one sample more', e.A('w1n'), ite(not_(lt(e.B('w1n'), N + 1)), N + 1, e.B('w1n') + 1), inv))
    if 'get_rolling_count' in e.c.fns:
        R.append(('rolling_count is the size of the window', e.B('rolling_count'), wn, inv))
        R.append(('rolling_count is the size of the window, after an update', e.A('rolling_count'), an, inv))
    if 'get_rolling_sum' in e.c.fns:
        R.append(('rolling_sum gains the new and loses the leaving sample', e.A('rolling_sum'), e.B('rolling_sum') + e.x - leave(lambda t: t), inv))
        R.append(('rolling_sum of a new set is 0', e.I('rolling_sum'), ZERO, []))
    n1 = sym('n')
    n1.attr = {'int': True, 'nn': True, 'ty': 'unsigned long'}
    if 'get_rolling_mean' in e.c.fns:
        R.append(('rolling_mean is the mean of the window', e.A('rolling_mean') * an, e.B('rolling_mean') * wn + e.x - leave(lambda t: t), inv + [ge(wn, 1)]))
        R.append(('rolling_mean of the first sample', e.F('rolling_mean'), e.x, [ge(n1, 1)]))
    if b.startswith('rmoment'):
        m = int(b[7:])
        R.append(('rolling_moment<%d> is the mean of the powers in the window' % m, e.A('rmoment') * an, e.B('rmoment') * wn + e.x ** m - leave(lambda t: t ** m), inv + [ge(wn, 1)]))
        R.append(('rolling_moment<%d> of the first sample' % m, e.F('rmoment'), e.x ** m, [ge(n1, 1)]))
    if 'get_rmoment2' in e.c.fns:
        R.append(('rolling_moment<2> is the mean of the squares in the window', e.A('rmoment2') * an, e.B('rmoment2') * wn + sq(e.x) - leave(sq), inv + [ge(wn, 1)]))
        R.append(('lazy rolling_variance is the sample variance of the window', e.B('rolling_variance'), wn * (e.B('rmoment2') - sq(e.B('rolling_mean'))) / (wn - 1), inv + [ge(wn, 2)]))
        R.append(('rolling_variance of fewer than two samples is 0', e.B('rolling_variance'), ZERO, inv + [eq(wn, ONE)]))
    elif 'get_rolling_variance' in e.c.fns:
        mb, ma = e.B('rolling_mean'), e.A('rolling_mean')
        ss = e.B('rolling_variance') * (wn - 1) + (e.x - mb) * (e.x - ma) - leave(lambda t: (t - mb) * (t - ma))
        R.append(('rolling_variance is the sample variance of the window', e.A('rolling_variance') * (an - 1), ss, inv + [ge(an, 2), ge(wn, 2), ge(e.B('rolling_variance'), 0), ge(ss, 0)]))
        R.append(('rolling_variance of one sample is 0', e.F('rolling_variance'), ZERO, [ge(n1, 1)]))
    return R


def given(s, lv):
    """valuations with consistent windows"""
    ty = (s.attr or {}).get('ty', '')
    if ty.startswith('boost::circular_buffer<'):
        el = split_targs(ty)[1][0]
        cap = lv.size or lv.r.randint(2, 5)
        n = lv.r.choice([cap, cap - 1, lv.r.randint(0, cap)])
        return evalt.Cont([lv.make(el) for _ in range(n)], cap)
    return None


def run(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        FM.exact(c)
        two = base(c.name) in ('rvariance',) or c.name == 'rvariance_all'
        e = (Env2 if two else Env)(c, rep)
        try:
            R = rules(e)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
            continue
        rep.units += 1
        from reach import Confirm
        rep.confirm = Confirm(c)
        for rule, lhs, rhs, assume in R:
            rep.same('%s: %s' % (c.name, rule), e.where(), lhs, rhs, assume, given=given, kind='window equation', trials=600)
        rep.confirm = None
        for it in e.its:
            rep.see(it)
    return rep


def main(pid):
    t0 = time.time()
    rep = Rep()
    for r in pmap('checks.rolling', 'run', [e for e in catalog.E if 'rolling' in e.tags and not e.name.endswith('_i')], size=4):
        rep.merge(r)
    return finish(pid, rep, t0, 'each rolling statistic as a relation between the window contents and extractor value numbers before/after one update; compared in normal form',
                  assumptions=ASSUME + ['window length at least 1'], min_obl=60)
