"""Abstract states of an accumulator set: state leaves, the transformer of one update / extraction as
value numbers over those leaves, and valuations of the leaves that are consistent with the transformer.

Consistent valuations are obtained by iterating the extracted transformer (terms) from the extracted
initial state; the library itself is never run.  They only serve to suppress alarms on states that no
history reaches."""
from core import *
from prog import INTS, FLOATS
from fractions import Fraction
import random

MAXDEN = 10 ** 7


def all_leaves(it, v, path=()):
    """(path, value) of every scalar/container leaf of an object, materialising symbolic members"""
    if isinstance(v, Obj):
        for rid, name, ti, mut in it.p.flat_fields(v.rid):
            yield from all_leaves(it, it.child(v, ('f', rid, name)), path + (('f', rid, name),))
    else:
        yield path, v


def leaf_terms(it, v):
    out = {}
    for p, x in all_leaves(it, v):
        try:
            out[p] = it.term(x)
        except Unsupported:
            out[p] = None
    return out


def round_(v):
    if isinstance(v, Fraction) and v.denominator > MAXDEN:
        return Fraction(round(v * 2 ** 20), 2 ** 20)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return v
        return Fraction(round(v * 2 ** 20), 2 ** 20)
    if isinstance(v, evalt.Cont):
        return evalt.Cont([round_(x) for x in v.e], v.cap)
    if isinstance(v, dict):
        return {k: round_(x) for k, x in v.items()}
    return v


class Params(evalt.Leaves):
    """valuation of constructor, update and extraction parameters"""

    def __init__(self, rnd, reach, grid=None):
        evalt.Leaves.__init__(self, rnd)
        self.reach = reach
        self.used = set()
        self.grid = grid or rnd.choice(('int', 'int', 'fine', 'dyadic'))

    def sample(self):
        while True:
            v = self._sample()
            if not self.reach.distinct:
                return v
            if v not in self.used:
                self.used.add(v)
                return v

    def _sample(self):
        r = self.r
        if self.reach.distinct:
            return Fraction(r.randint(-4000, 6000), 512)
        if self.grid == 'int':
            return Fraction(r.randint(-4, 6))
        if self.grid == 'dyadic':
            return Fraction(r.randint(-40, 60), 4)
        return Fraction(r.randint(-4000, 6000), 512)

    def param(self, name, ty):
        r = self.r
        if name in ('x', 'v', 'x0', 'v0'):
            if ty in FLOATS:
                return self.sample()
            if ty in INTS and self.reach.distinct:
                while True:
                    v = Fraction(r.randint(-40 if not ty.startswith('unsigned') else 0, 60))
                    if v not in self.used:
                        self.used.add(v)
                        return v
            if ty in INTS:
                return Fraction(r.randint(-4, 9) if not ty.startswith('unsigned') else r.randint(0, 9))
            if ty.startswith(('std::vector<', 'std::valarray<')):
                return evalt.Cont([self.sample() for _ in range(self.dim())])
        if name in ('w', 'w0'):
            return Fraction(r.randint(1, 6)) if ty in INTS or r.random() < 0.5 else Fraction(r.randint(1, 40), 8)
        if name == 'k':
            return Fraction(r.randint(0, 3))
        if name in ('n', 'c') and ty in INTS:
            return Fraction(r.randint(1, 5))
        if name == 'p' and ty in FLOATS:
            return Fraction(r.randint(1, 31), 32)
        if name == 'pr':
            return evalt.Cont([Fraction(x, 32) for x in sorted(r.sample(range(1, 32), r.randint(2, 3)))])
        if name == 't':
            return Fraction(r.randint(1, 31), 32) if 'potp' in self.reach.c.name else Fraction(r.randint(-2, 3))
        return None

    def dim(self):
        if not hasattr(self, '_dim'):
            self._dim = self.r.randint(1, 3)
        return self._dim

    def __call__(self, s):
        if s.id in self.v:
            return self.v[s.id][1]
        ty = (s.attr or {}).get('ty', '')
        if len(s.args) == 1:
            v = self.param(s.args[0], ty)
            if v is not None:
                self.v[s.id] = (s, v)
                return v
        return evalt.Leaves.__call__(self, s)


class Reach:
    def __init__(self, case, hist_get=True):
        self.c = case
        c = case
        # which of several equal samples stays in a full tail cache is unspecified
        self.distinct = 'tail' in catalog.BY[c.name].tags if c.name in catalog.BY else False
        it = c.interp()
        S = c.make(it)
        c.throws(it)
        self.it0 = it
        init = leaf_terms(it, it.st[S[0]])
        it = c.interp()
        S = c.state(it)
        self.sy = {}
        for p, t in leaf_terms(it, it.st[S[0]]).items():
            if t is not None and t.op == 'sym':
                self.sy[p] = t
        st0 = dict(it.st)
        self.init = {p: init.get(p) for p in self.sy}
        c.update(it, S)
        self.up_throws = c.throws(it)
        up = leaf_terms(it, it.st[S[0]])
        self.step = {p: up[p] for p in self.sy if up.get(p) is not self.sy[p]}
        self.gets = {}
        self.unsup = {}
        for k in c.getters():
            it = c.interp()
            S = c.state(it)
            try:
                c.get(it, S, k)
                c.throws(it)
                g = leaf_terms(it, it.st[S[0]])
                self.gets[k] = {p: g[p] for p in self.sy if g.get(p) is not self.sy[p]}
            except Unsupported as x:
                self.unsup[k] = str(x)
        self.mutable = set(self.step)
        for d in self.gets.values():
            self.mutable |= set(d)

    # ------------------------------------------------------------ abstract states
    def state(self, it):
        """constructed set whose mutable leaves are arbitrary (constants keep their constructed value)"""
        S = self.c.make(it)
        self.c.throws(it)
        for p in self.sy:
            if p in self.mutable:
                it.write((S[0], S[1] + p), self.sy[p])
        return S

    def name(self, p):
        return '.'.join(str(x) for x in self.sy[p].args[1:]) if p in self.sy else '.'.join(x[2] for x in p if x[2] not in ('accumulators', 'car', 'cdr'))

    # ------------------------------------------------------------ consistent valuations
    def valuation(self, rnd, m=None, extract=True):
        pr = Params(rnd, self)
        names = {n for _, n, _ in self.c.fns['mk']['params']} if 'mk' in self.c.fns else set()
        cur = {}
        va = evalt.Val(pr)
        for p, t in self.init.items():
            if t is None:
                raise evalt.Undefined('init')
            if t is UNDEF:
                cur[p] = None
                continue
            cur[p] = va.ev(t)
        base = {k: v for k, v in pr.v.items() if len(v[0].args) == 1 and v[0].args[0] in names}
        if m is None:
            m = rnd.choice((0, 1, 2, 3, 4, 5, 6, 8, 11))
        hist = []
        for i in range(m):
            cur, arg = self._apply(self.step, cur, base, rnd, pr)
            hist.append(arg)
            if extract and self.gets and rnd.random() < 0.25:
                k = rnd.choice(sorted(self.gets))
                if self.gets[k]:
                    cur, _ = self._apply(self.gets[k], cur, base, rnd, pr)
                    hist.append('extract ' + k)
        out = dict(base)
        for p, v in cur.items():
            if v is not None:
                out[self.sy[p].id] = (self.sy[p], v)
        return out, pr, hist

    def _apply(self, trans, cur, base, rnd, pr0):
        pr = Params(rnd, self, pr0.grid)
        if hasattr(pr0, '_dim'):
            pr._dim = pr0._dim
        pr.used = pr0.used
        pr.v = dict(base)
        for p, v in cur.items():
            if v is not None:
                pr.v[self.sy[p].id] = (self.sy[p], v)
        va = evalt.Val(pr)
        new = dict(cur)
        for p, t in trans.items():
            if t is None:
                raise evalt.Undefined('leaf without a term')
            new[p] = round_(va.ev(t))
        if hasattr(pr, '_dim'):
            pr0._dim = pr._dim
        arg = {s.args[0]: v for s, v in pr.v.values() if len(s.args) == 1 and s.id not in base}
        return new, ', '.join('%s=%s' % (k, evalt.pv(v)) for k, v in sorted(arg.items()))

    def leaves(self, rnd, m=None):
        """a Leaves object whose state part is consistent"""
        v, pr, hist = self.valuation(rnd, m)
        lv = Params(rnd, self, pr.grid)
        if hasattr(pr, '_dim'):
            lv._dim = pr._dim
        lv.used = pr.used
        lv.v = v
        lv.hist = hist
        return lv


def same_reach(rep, reach, rule, where, a, b, assume=(), kind='obligation', trials=250, limit_s=12):
    """as Rep.same, but a difference has to show in a consistent state"""
    ex = []
    try:
        if equal(a, b, assume, budget=[1500], explain=ex):
            rep.ok(kind)
            return True
    except (TM.Budget, RecursionError):
        pass
    rnd = random.Random(7)
    used = 0
    t0 = time.time()
    why = {}
    for k in range(trials):
        if time.time() - t0 > limit_s:
            break
        try:
            lv = reach.leaves(rnd)
            va = evalt.Val(lv)
            if not all(va.bool(x, {}) for x in assume):
                continue
            x = va.ev(a)
            y = va.ev(b)
        except evalt.Undefined as e:
            why[str(e)[:60]] = why.get(str(e)[:60], 0) + 1
            continue
        used += 1
        if not evalt.same(x, y, 1e-4):
            rep.bad(rule, where, 'value: %s; required: %s' % (show(a)[:300], show(b)[:300]), kind,
                    separated_by=('%s; history: %s' % (lv.text(), ' | '.join(lv.hist)))[:900], code_value=str(evalt.pv(x))[:200], required_value=str(evalt.pv(y))[:200])
            return False
    if used >= 40:
        rep.notes.append('%s: no normal form; agrees on %d consistent states' % (rule, used))
        rep.unk(rule, 'no normal form, no difference in %d consistent abstract states' % used, kind)
    else:
        rep.unk(rule, 'no normal form, only %d usable states %s' % (used, sorted(why.items(), key=lambda z: -z[1])[:2]), kind)
    return None


# ---------------------------------------------------------------- members the checks do not know
INTS = ('signed char', 'unsigned char', 'char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long')
LAYOUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')


def signature(c):
    """types of the state leaves of a set"""
    it = c.interp()
    S = c.state(it)
    return sorted(str((t.attr or {}).get('ty', '?')) if t is not None else '?' for t in leaf_terms(it, it.st[S[0]]).values())


def kinds(sig):
    """a number stays a number: another width alone ties no members to each other"""
    k = lambda t: 'int' if t in INTS else 'float' if t in ('float', 'double', 'long double') else t
    return sorted(k(t) for t in sig)


class Confirm:
    """Equations are shown for arbitrary states.  Where a set has other members than the ones known here, they may be
    tied to each other (a cached or redundant value), and a difference has to show in a state that a history reaches."""
    known = None

    def __init__(self, c):
        self.c = c
        self.reach = None

    def __call__(self, a, b, assume):
        if Confirm.known is None:
            Confirm.known = json.load(open(LAYOUT))
        if self.c.name not in Confirm.known or kinds(Confirm.known[self.c.name]) == kinds(signature(self.c)):
            return True
        if self.reach is None:
            try:
                self.reach = Reach(self.c)
            except Exception:
                self.reach = False
        if not self.reach:
            return False
        big = evalt.big_sizes([a])
        rnd = random.Random(11)
        t0 = time.time()
        for k in range(500):
            if time.time() - t0 > 12:
                break
            try:
                m = None
                if big and k % 10 == 9:
                    m = rnd.choice(big) + rnd.randint(-2, 3)
                lv = self.reach.leaves(rnd, m)
                va = evalt.Val(lv)
                if not all(va.bool(x, {}) for x in assume):
                    continue
                if not evalt.same(va.ev(a), va.ev(b), 1e-4):
                    return True
            except evalt.Undefined:
                continue
        return False
