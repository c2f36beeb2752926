"""Refinement of a reference program by an accumulator set.

Both programs are evaluated over value numbers: initial state, transformer of one update, observations.  The
refinement holds if there is a relation between the two states (pairs of leaves that are equal) that
 - holds initially,
 - is preserved by one update with the same arguments, and
 - makes every observation equal.
Candidate pairs are those that agree along sample runs of the two extracted transformers; pairs whose
preservation cannot be shown by comparing value numbers are dropped until the rest is inductive.
A violation is reported only if the two transformers, iterated from the two initial states with the same
arguments, give different observations; the library itself is never executed."""
from reach import *
import os

DEBUG = bool(os.environ.get('SA_DEBUG'))


class Named(evalt.Leaves):
    def __init__(self, env, state):
        evalt.Leaves.__init__(self, random.Random(3))
        self.env = env
        self.state = state

    def __call__(self, s):
        v = self.state.get(s.id, self)
        if v is not self:
            if v is None:
                raise evalt.Undefined('state not set: ' + show(s))
            return v
        if len(s.args) == 1 and s.args[0] in self.env:
            return self.env[s.args[0]]
        if s.args and s.args[0] == 'limits':
            return evalt.Leaves.__call__(self, s)
        raise evalt.Undefined('leaf ' + show(s))


class Side:
    """extracted transformer system of one program"""

    def __init__(self, case, keys=None, pin=()):
        self.c = c = case
        self.par = {nm: ti for f in c.fns.values() for pid, nm, ti in f['params']}
        it = c.interp()
        S = c.make(it)
        c.throws(it)
        init = leaf_terms(it, it.st[S[0]])
        self.it0 = it
        it = c.interp()
        S = c.state(it)
        self.sy = {}
        for p, t in leaf_terms(it, it.st[S[0]]).items():
            if t is not None and t.op == 'sym':
                self.sy[p] = t
        self.init = {p: init.get(p) for p in self.sy}
        c.update(it, S)
        self.up_throws = c.throws(it)
        up = leaf_terms(it, it.st[S[0]])
        self.step = {p: up[p] for p in self.sy if up.get(p) is not self.sy[p]}
        self.obs = {}
        self.eff = {}
        self.unsup = {}
        self.its = [it]
        for k in c.getters():
            if keys is not None and k not in keys:
                continue
            it = c.interp()
            S = c.state(it)
            try:
                v = it.term(c.get(it, S, k))
                cond = FALSE
                for cc, _ in c.throws(it):
                    cond = or_(cond, cc)
                self.obs[k] = (v, cond)
                g = leaf_terms(it, it.st[S[0]])
                self.eff[k] = {p: g[p] for p in self.sy if g.get(p) is not self.sy[p]}
                self.its.append(it)
            except Unsupported as x:
                self.unsup[k] = str(x)
        self.slice()
        self.mutable = set(self.step)
        for d in self.eff.values():
            self.mutable |= set(d)

    def slice(self):
        """keep only the leaves the observations depend on"""
        if self.unsup:
            return
        by = {t.id: p for p, t in self.sy.items()}
        cache = {}

        def deps(t):
            if t is None:
                return ()
            if t.id not in cache:
                cache[t.id] = {by[u] for u in subterms(t) if u in by}
            return cache[t.id]
        need = set()
        todo = set()
        for v, c in self.obs.values():
            todo |= set(deps(v)) | set(deps(c))
        for c, _ in self.up_throws:
            todo |= set(deps(c))
        while todo:
            p = todo.pop()
            if p in need:
                continue
            need.add(p)
            todo |= set(deps(self.step.get(p))) - need
            for d in self.eff.values():
                todo |= set(deps(d.get(p))) - need
        self.sy = {p: t for p, t in self.sy.items() if p in need}
        self.init = {p: self.init[p] for p in self.sy}
        self.step = {p: t for p, t in self.step.items() if p in need}
        self.eff = {k: {p: t for p, t in d.items() if p in need} for k, d in self.eff.items()}

    def start(self, env):
        va = evalt.Val(Named(env, {}))
        out = {}
        for p, t in self.init.items():
            if t is None:
                raise evalt.Undefined('init')
            out[p] = None if t is UNDEF else va.ev(t)
        return out

    def _val(self, env, cur, limit=400000):
        return evalt.Val(Named(env, {self.sy[p].id: v for p, v in cur.items()}), limit)

    def advance(self, cur, env, trans=None):
        va = self._val(env, cur)
        new = dict(cur)
        for p, t in (self.step if trans is None else trans).items():
            if t is None:
                raise evalt.Undefined('leaf without a term')
            try:
                new[p] = big(va.ev(t))
            except evalt.Undefined:
                # a leaf that has no value yet poisons only what uses it
                new[p] = None
        return new

    def observe(self, cur, env, k):
        """value, or the string 'throws', or None when it has no defined value"""
        va = self._val(env, cur)
        v, c = self.obs[k]
        if c is not FALSE and va.bool(c, {}):
            return 'throws'
        return va.ev(v)

    def state_in(self, it):
        S = self.c.make(it)
        self.c.throws(it)
        return S

    def name(self, p):
        return '.'.join(x[2] for x in p if x[2] not in ('accumulators', 'car', 'cdr'))


def big(v):
    if isinstance(v, Fraction) and v.denominator.bit_length() > 3000:
        raise evalt.Undefined('size')
    return v


def compare(rep, rule, A, B, gen, runs=60, keys=None, limit_s=40, kind='observation along a run', where='', tol=1e-6, mix=0.3, skip=None, view=None, base=1000):
    """iterate both transformers; returns (ok?, runs of leaf values for mining)"""
    t0 = time.time()
    keys = keys or [k for k in A.obs if k in B.obs]
    mined = None
    els = None
    ratio = {}
    same_in_a = None
    done = 0
    compared = {k: 0 for k in keys}
    why = {}
    for n in range(runs):
        if time.time() - t0 > limit_s:
            break
        rnd = random.Random(base + n)
        env, hist, obsenv = gen(rnd, n)
        try:
            a, b = A.start(env), B.start(env)
        except evalt.Undefined as x:
            why[str(x)[:80]] = why.get(str(x)[:80], 0) + 1
            continue
        trace = []
        for i in range(len(hist) + 1):
            if i:
                e = dict(env)
                e.update(hist[i - 1])
                trace.append(', '.join('%s=%s' % (k, evalt.pv(v)) for k, v in sorted(hist[i - 1].items())))
                try:
                    a, b = A.advance(a, e), B.advance(b, e)
                except evalt.Undefined as x:
                    why[str(x)[:80]] = why.get(str(x)[:80], 0) + 1
                    break
            # mining of equal leaves
            if view is not None:
                k_ = int(env[view[0]])
                el = {(('el', p), q) for p in A.sy for q in B.sy if a[p] is None or b[q] is None or isinstance(a[p], evalt.Cont) and k_ < len(a[p].e) and evalt.same(a[p].e[k_], b[q])}
                els = el if els is None else els & el
            if mined is None:
                mined = {(p, q) for p in A.sy for q in B.sy if a[p] is not None and b[q] is not None and evalt.same(a[p], b[q])} | {(p, q) for p in A.sy for q in B.sy if a[p] is None and b[q] is None}
            else:
                mined = {(p, q) for p, q in mined if a[p] is None or b[q] is None or evalt.same(a[p], b[q])}
            if view is None:
                al = {(p, q) for p in A.sy for q in A.sy if p < q and p in A.mutable and q in A.mutable and isinstance(a[p], Fraction) and isinstance(a[q], Fraction) and a[p] == a[q]} if same_in_a is None else {(p, q) for p, q in same_in_a if a[p] is not None and a[p] == a[q]}
                same_in_a = al
                for p in A.sy:
                    for q in B.sy:
                        if ratio.get((p, q), 0) is None or a[p] is None or b[q] is None:
                            continue
                        if not isinstance(a[p], Fraction) or not isinstance(b[q], Fraction) or (a[p] == 0) != (b[q] == 0):
                            ratio[p, q] = None
                        elif a[p] != 0:
                            c = b[q] / a[p]
                            if ratio.setdefault((p, q), c) != c or c == 1:
                                ratio[p, q] = None
            for k in keys:
                e = dict(env)
                try:
                    e.update(obsenv(rnd, i, k))
                except evalt.Undefined:
                    continue
                if skip is not None and skip(k, i, e):
                    continue
                try:
                    x = A.observe(a, e, k)
                    y = B.observe(b, e, k)
                except evalt.Undefined as ex:
                    why[str(ex)[:80]] = why.get(str(ex)[:80], 0) + 1
                    continue
                compared[k] += 1
                if not evalt.same(x, y, tol):
                    ob = {q: w for q, w in e.items() if q not in env}
                    rep.bad(rule % k, where, 'with %s, after %d samples [%s]%s the set gives %s; required: %s' % (
                        ', '.join('%s=%s' % (q, evalt.pv(w)) for q, w in sorted(env.items())) or 'no parameters', i, ' | '.join(trace)[-500:],
                        ' (extraction with %s)' % ', '.join('%s=%s' % (q, evalt.pv(w)) for q, w in sorted(ob.items())) if ob else '', evalt.pv(x), evalt.pv(y)), kind)
                    return False, mined, compared, why
                eff = A.eff.get(k)
                if eff and x != 'throws' and rnd.random() < mix:
                    try:
                        a = A.advance(a, e, eff)
                        if B.eff.get(k):
                            b = B.advance(b, e, B.eff[k])
                        trace.append('extract ' + k)
                    except evalt.Undefined:
                        pass
        done += 1
    A.alias = same_in_a or set()
    scaled = {(('sc', p, c), q) for (p, q), c in ratio.items() if c is not None}
    return True, (mined or set()) | (els or set()) | scaled if mined is not None else mined, compared, why


def prove(rep, rule, A, B, mined, where='', keys=None, kind='simulation', assume=(), budget=1500, limit_s=60, inv=None, view=None):
    """inductive simulation from the mined pairs; observation equality under it"""
    t0 = time.time()
    keys = keys or [k for k in A.obs if k in B.obs]
    # one partner per reference leaf
    pair = {}
    for p, q in sorted(mined or [], key=lambda z: (str(z[1]), str(z[0]))):
        if q not in pair:
            pair[q] = p
    isel = lambda p: len(p) == 2 and p[0] == 'el'
    issc = lambda p: len(p) == 3 and p[0] == 'sc'
    leaf = lambda p: p[1] if isel(p) or issc(p) else p
    vk, vn = (None, None) if view is None else (A.c.interp().fresh((view[0],), A.par[view[0]]), A.c.interp().fresh((view[1],), A.par[view[1]]))

    def at(d, p):
        """value of a leaf, or of its element number k"""
        if isel(p):
            t = d.get(p[1])
            return None if t is None else select(t, vk)
        if issc(p):
            t = d.get(p[1])
            return None if t is None or t is UNDEF else mul(const(p[2]), t)
        return d.get(p)
    # prefer the leaf whose name has most words in common
    words = lambda n: set(n.replace('.', '_').split('_'))

    def score(p, q):
        p = leaf(p)
        a, b = words(show(A.sy[p])), words(show(B.sy[q]))
        return (p[-1][2] == q[-1][2]) + len(a & b) - 0.1 * len(a - b) + 0.01 * (A.init[p] is B.init[q])
    for q in list(pair):
        pair[q] = max(sorted((p for p, q2 in mined if q2 == q), key=str), key=lambda p: score(p, q))

    alias = {}
    for p, q in sorted(getattr(A, 'alias', ()), key=str):
        if q not in alias and p not in alias:
            alias[q] = p

    def sides():
        ita = A.c.interp()
        SA = A.c.make(ita)
        A.c.throws(ita)
        for p in A.sy:
            if p in A.mutable:
                ita.write((SA[0], SA[1] + p), A.sy[alias.get(p, p)])
        itb = B.c.interp()
        SB = B.c.make(itb)
        B.c.throws(itb)
        for q in B.sy:
            if q in pair:
                p = pair[q]
                itb.write((SB[0], SB[1] + q), at({leaf(p): A.sy[alias.get(leaf(p), leaf(p))]} if leaf(p) in A.mutable else A.init, p))
            elif q in B.mutable:
                # unrelated: must not be mistaken for the leaf of the same name on the other side
                t = sym('unrelated', *B.sy[q].args)
                t.attr = B.sy[q].attr
                itb.write((SB[0], SB[1] + q), t)
        return ita, SA, itb, SB

    sized = {}
    if view is not None:
        assume = list(assume) + [lt(vk, vn), le(ZERO, vk), not_(TM.eq(vn, ZERO))]
        for p in A.sy:
            if p in A.mutable:
                sized[size_of(A.sy[p])] = vn
        for nm in view[2:]:
            for side in (A, B):
                if nm in side.par:
                    sized[size_of(side.c.interp().fresh((nm,), side.par[nm]))] = vn

    def eq(x, y, extra=()):
        if sized:
            x, y = subst(x, sized), subst(y, sized)
            extra = [subst(z, sized) for z in extra]
        try:
            return x is y or equal(x, y, list(assume) + list(extra), budget=[budget])
        except (TM.Budget, RecursionError):
            return False
    # base
    ita = A.c.interp()
    for q in list(pair):
        x, y = at(A.init, pair[q]), B.init[q]
        if x is None or y is None or not (x is y or eq(x, y)):
            del pair[q]
    for q in list(alias):
        if A.init[q] is None or A.init[alias[q]] is None or not eq(A.init[q], A.init[alias[q]]):
            del alias[q]
    inductive = False
    while time.time() - t0 < limit_s:
        ita, SA, itb, SB = sides()
        A.c.update(ita, SA)
        A.c.throws(ita)
        B.c.update(itb, SB)
        B.c.throws(itb)
        la = leaf_terms(ita, ita.st[SA[0]])
        lb = leaf_terms(itb, itb.st[SB[0]])
        drop = []
        for q in list(pair):
            # the containers seen through an index keep their length
            p = pair[q]
            if isel(p) and not (eq(size_of(A.init[p[1]]), vn) and eq(size_of(la[p[1]]), vn)):
                if DEBUG:
                    print('SIZE', A.name(p[1]), show(size_of(A.init[p[1]])), show(size_of(la[p[1]])))
                drop.append(q)
        stale = [q for q in alias if la.get(q) is None or la.get(alias[q]) is None or not eq(la[q], la[alias[q]])]
        for q in pair:
            x, y = at(la, pair[q]), lb.get(q)
            if x is None or y is None or not eq(x, y):
                drop.append(q)
        for k in keys:
            # extraction may fill caches
            if drop or stale or not (A.eff.get(k) or B.eff.get(k)):
                continue
            ita, SA, itb, SB = sides()
            A.c.get(ita, SA, k)
            A.c.throws(ita)
            B.c.get(itb, SB, k)
            B.c.throws(itb)
            la = leaf_terms(ita, ita.st[SA[0]])
            lb = leaf_terms(itb, itb.st[SB[0]])
            stale += [q for q in alias if la.get(q) is None or la.get(alias[q]) is None or not eq(la[q], la[alias[q]])]
            for q in pair:
                x, y = at(la, pair[q]), lb.get(q)
                if x is None or y is None or not eq(x, y):
                    drop.append(q)
        if not drop and not stale:
            inductive = True
            break
        if DEBUG:
            for q in drop:
                print('DROP', A.name(leaf(pair[q])), B.name(q), '\n  A', show(at(la, pair[q]))[:1500], '\n  B', show(lb.get(q))[:1500])
        for q in set(stale):
            del alias[q]
        for q in set(drop):
            del pair[q]
    if not inductive:
        for k in keys:
            rep.unk(rule % k, 'no inductive relation found in the time allowed', kind)
        return False
    rep.notes.append('%s: relation %s' % (rule, ', '.join('%s~%s' % (A.name(leaf(p)) + ('[k]' if isel(p) else '*%s' % p[2] if issc(p) else ''), B.name(q)) for q, p in sorted(pair.items(), key=str))[:400]))
    ita, SA, itb, SB = sides()
    sa, sb = dict(ita.st), dict(itb.st)
    ok = True
    for k in keys:
        ita.st, itb.st = dict(sa), dict(sb)
        try:
            x = ita.term(A.c.get(ita, SA, k))
            ca = FALSE
            for cc, _ in A.c.throws(ita):
                ca = or_(ca, cc)
            y = itb.term(B.c.get(itb, SB, k))
            cb = FALSE
            for cc, _ in B.c.throws(itb):
                cb = or_(cb, cc)
        except Unsupported as e:
            rep.unk(rule % k, 'not evaluated: %s' % e, kind)
            ok = False
            continue
        ex = [not_(ca)] if ca is not FALSE else []
        if eq(x, y, ex) and (ca is cb or eq(ca, cb)):
            rep.ok(kind)
        else:
            ok = False
            if DEBUG:
                print('OBS', k, '\n  A', show(x, 12)[:4000], '\n  B', show(y, 12)[:4000])
            rep.unk(rule % k, 'the two programs agree along all runs compared, but no inductive relation was found', kind)
    rep.see(ita)
    return ok


FLOATING = ('float', 'double', 'long double')


def deepen(gen, A, B):
    """a wider class of histories: longer ones, moved and scaled so that samples and sums of weights meet the constants of the code"""
    def constants(side):
        out = set()
        for t in list(side.step.values()) + [x for v in side.obs.values() for x in v] + [t for d in side.eff.values() for t in d.values()]:
            if t is not None:
                su = subterms(t).values()
                out |= {u.args[0] for u in su if u.op == 'c' and isinstance(u.args[0], Fraction)}
                out |= {Fraction(256 if u.args[1] == 'unsigned char' else 128) for u in su if u.op == 'fn' and u.args[0] == 'narrow' and u.args[1] in ('char', 'signed char', 'unsigned char')}
        return out
    ca, cb = constants(A), constants(B)
    cs = sorted(c for c in (ca - cb or ca) if abs(c) < 10 ** 9) or [Fraction(1)]
    pos = [c for c in cs if c > 0] or [Fraction(1)]
    fl = {nm for nm, ti in A.par.items() if A.it0.p.tstrip(ti) in FLOATING} & {nm for nm, ti in B.par.items() if B.it0.p.tstrip(ti) in FLOATING}

    def distinct(h, nm):
        v = [d[nm] for d in h if nm in d]
        return len(set(v)) == len(v)
    # sizes: whole numbers that occur in the code only
    big = sorted(int(c) for c in ca - cb if c.denominator == 1 and 5 <= abs(c) <= 700 and c > 0)
    INT = ('unsigned long', 'long', 'int', 'unsigned int', 'unsigned long long', 'long long')
    whole = {nm for nm, ti in A.par.items() if A.it0.p.tstrip(ti) in INT}

    def large(rnd, i):
        """parameters and lengths around a size that the code mentions"""
        c = rnd.choice(big)
        env, h, o = gen(rnd, i)
        if not h:
            return env, h, o
        need = c * rnd.choice((1, 1, 2, 3)) + rnd.randint(1, 12)
        pick = rnd.random()
        for nm, v in env.items():
            if isinstance(v, evalt.Cont) and len(v.e) > 1 and all(isinstance(z, Fraction) for z in v.e) and all(0 < y < 1 for y in v.e) and all(y < z for y, z in zip(v.e, v.e[1:])) and pick < 0.7:
                m = rnd.choice((c, c + 1, c // 2 + 1, c // 2 + 2, c // 2)) or 2
                v.e[:] = [Fraction(j + 1, m + 1) for j in range(m)]
                need = max(need, 2 * m + 4 + rnd.randint(0, 12))
            elif nm in whole and isinstance(v, Fraction) and pick < 0.7:
                env[nm] = Fraction(c + rnd.randint(-1, 3))
                need = max(need, int(env[nm]) + rnd.randint(1, 20))
        uniq = 'x' in h[0] and distinct(h, 'x')
        seen = {d['x'] for d in h} if uniq else set()
        j = 0
        while len(h) < need:
            j += 1
            _, h2, _ = gen(rnd, i)
            for d in h2 if h2 and set(h2[0]) == set(h[0]) else [dict(rnd.choice(h))]:
                d = dict(d)
                if uniq:
                    d['x'] = d['x'] + Fraction(j, 977)
                    if d['x'] in seen:
                        continue
                    seen.add(d['x'])
                h.append(d)
        o0, last = o, len(h)

        def obs(r, k, key):
            if k < last - 3 and r.random() < 0.97 and abs(k - c) > 2:
                raise evalt.Undefined('not observed here')
            return o0(r, k, key)
        return env, h, obs

    def g(rnd, i):
        if big and rnd.random() < 0.5:
            return large(rnd, i)
        env, h, o = gen(rnd, i)
        if h and rnd.random() < 0.4:
            _, h2, _ = gen(rnd, i)
            if h2 and set(h2[0]) == set(h[0]) and all(isinstance(v, Fraction) for d in h2 for v in d.values()):
                h3 = h + h2
                if all(distinct(h3, nm) or not distinct(h, nm) for nm in ('x',) if nm in h[0]):
                    h = h3
        h = [dict(d) for d in h]
        for nm in sorted({nm for d in h for nm in d if nm in fl and isinstance(d[nm], Fraction)}):
            idx = [d for d in h if nm in d]
            if rnd.random() < 0.35:
                continue
            if nm == 'w':
                if rnd.random() < 0.5:
                    s = rnd.choice((Fraction(1, 64), Fraction(1, 8), Fraction(1, 2), Fraction(5), Fraction(50)))
                else:
                    s = rnd.choice(pos) * rnd.choice((1, 1, Fraction(3, 4), Fraction(4, 3))) / sum(d[nm] for d in idx[:rnd.randint(1, len(idx))])
                t = Fraction(0)
            else:
                s = rnd.choice((Fraction(1), Fraction(1), Fraction(1, 16), Fraction(1, 2), Fraction(3), Fraction(50)))
                t = rnd.choice((Fraction(0), Fraction(rnd.randint(-9, 9)), rnd.choice(cs) - s * rnd.choice(idx)[nm]))
            for d in idx:
                d[nm] = s * d[nm] + t
        return env, h, o
    g.big = big
    return g


def deadline(default):
    """seconds left of the time a whole check may take"""
    d = os.environ.get('SA_DEADLINE')
    return default if not d else min(default, float(d) - time.time())


def refine(rep, rule, code, ref, gen, keys=None, where=None, runs=60, limit_s=40, prove_s=60, assume=(), tol=1e-6, skip=None, mix=0.3, quick=0, view=None, deep_s=25, vary=True):
    A = Side(code, keys)
    B = Side(ref, keys)
    for it in A.its:
        rep.see(it)
    w = where or where_of(code, *A.its)
    for k, x in A.unsup.items():
        rep.unk(rule % k, 'not evaluated: %s' % x)
    if quick:
        # a few short runs to find candidate pairs; the long comparison only where the proof fails
        r1 = Rep()
        ok, mined, compared, why = compare(r1, rule, A, B, gen, quick, keys, limit_s, where=w, tol=tol, skip=skip, mix=mix, view=view)
        if ok:
            r2 = Rep()
            try:
                with limited(prove_s + 20):
                    if prove(r2, rule, A, B, mined, w, keys, assume=assume, limit_s=prove_s, view=view) and not A.unsup:
                        rep.merge(r2)
                        return True
            except TimeoutError:
                pass
    ok, mined, compared, why = compare(rep, rule, A, B, gen, runs, keys, limit_s, where=w, tol=tol, skip=skip, mix=mix, view=view)
    if not ok:
        return False
    ks = [k for k in (keys or A.obs) if k in A.obs and k in B.obs]
    for k in ks:
        if compared.get(k, 0) < 10:
            rep.unk(rule % k, 'only %d comparable states %s' % (compared.get(k, 0), sorted(why.items(), key=lambda z: -z[1])[:3]))
    if B.unsup:
        rep.unk(rule % ','.join(B.unsup), 'reference not evaluated: %s' % B.unsup)
    done = False
    try:
        with limited(prove_s + 20):
            done = prove(rep, rule, A, B, mined, w, keys, assume=assume, limit_s=prove_s, view=view)
    except TimeoutError as x:
        for k in ks:
            rep.unk(rule % k, str(x))
    wide = deepen(gen, A, B) if vary and not done else gen
    left = deadline(deep_s * (3 if getattr(wide, 'big', None) else 1))
    if not done and left > 2:
        # undecided so far: look longer for a run that tells the two apart
        r3 = Rep()
        ok, _, _, _ = compare(r3, rule, A, B, wide, 10 ** 6, keys, left, where=w, tol=tol, skip=skip, mix=mix, view=view, base=500000)
        if not ok:
            rep.merge(r3)
            return False
    return True
