"""Valuations of value numbers.

Two value numbers that do not have the same normal form may still denote the same function (the
normal form is not complete for loops and transcendental functions).  Before a mismatch is
reported, it has to be separated: a valuation of the leaf symbols under which the two terms take
different values.  Only the terms are evaluated, never code of the library."""
from fractions import Fraction
import math, random
from terms import *
import terms as TM
from prog import INTS, FLOATS, WIDTH, split_targs


class Undefined(Exception):
    pass


class Cont:
    __slots__ = ('e', 'cap')

    def __init__(self, e, cap=None):
        self.e = e
        self.cap = cap

    def __repr__(self):
        return '[%s]%s' % (', '.join(pv(x) for x in self.e), '' if self.cap is None else '/cap %s' % self.cap)


def pv(x):
    if isinstance(x, Fraction):
        return str(x) if x.denominator < 100 else '%.6g' % float(x)
    if isinstance(x, float):
        return '%.6g' % x
    return str(x)


NAN = float('nan')
LIM = {'double': {'max': Fraction(10) ** 30, 'min': Fraction(1, 10 ** 30), 'epsilon': Fraction(1, 10 ** 15), 'infinity': math.inf, 'quiet_NaN': NAN},
       'float': {'max': Fraction(10) ** 20, 'min': Fraction(1, 10 ** 20), 'epsilon': Fraction(1, 10 ** 7), 'infinity': math.inf, 'quiet_NaN': NAN}}


def _free(t, memo):
    """loop levels a term depends on"""
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'phi':
        r = frozenset([t.args[0]])
    elif t.op == 'iter':
        r = frozenset(['L%s' % t.args[0]])
    elif t.op == 'formal':
        r = frozenset(['F'])
    else:
        r = frozenset()
        if t.op == 'mu':
            lv = 'L%s' % t.args[0]
            for a in TM._targs((t.args[2], t.args[3])):
                r |= _free(a, memo)
            r -= {lv}
            for a in TM._targs((t.args[4],)):
                r |= _free(a, memo)
        elif t.op == 'cmp':
            r = _free(t.args[0], memo) - {'F'}
        else:
            for a in TM._targs(t.args):
                r |= _free(a, memo)
    memo[t.id] = r
    return r


FREE = {}


class Val:
    def __init__(self, leaf, limit=200000):
        self.leaf = leaf          # sym term -> value
        self.memo = {}
        self.steps = limit

    def ev(self, t, env=None):
        env = env or {}
        fr = _free(t, FREE)
        if not fr:
            k = t.id
        else:
            k = (t.id, tuple(sorted((l, env.get(l, (0,))[0]) for l in fr)))
        r = self.memo.get(k)
        if r is None:
            self.steps -= 1
            if self.steps < 0:
                raise Undefined('budget')
            r = self.ev1(t, env)
            self.memo[k] = r
        return r

    def soft(self, t, env):
        """value of a loop variable; an undefined one only matters where it is used"""
        try:
            return self.ev(t, env)
        except Undefined as x:
            if self.steps < 0:
                raise
            return x

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return Fraction(int(v))
        if not isinstance(v, (Fraction, float)):
            raise Undefined('not a number: %s' % t.op)
        return v

    def bool(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, (Fraction, float)):
            return v != 0
        raise Undefined('not a condition')

    def idx(self, t, env):
        v = self.num(t, env)
        if isinstance(v, float):
            if v != v or abs(v) > 1e9 or v != int(v):
                raise Undefined('index')
            return int(v)
        if v.denominator != 1:
            raise Undefined('index')
        return int(v)

    def cont(self, t, env):
        v = self.ev(t, env)
        if not isinstance(v, Cont):
            raise Undefined('not a container: %s' % t.op)
        return v

    def ev1(self, t, env):
        o, a = t.op, t.args
        if o == 'c':
            return a[0]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'sym':
            return self.leaf(t)
        if o == '+':
            return fl(self.num(a[0], env), self.num(a[1], env), lambda x, y: x + y)
        if o == '*':
            return fl(self.num(a[0], env), self.num(a[1], env), lambda x, y: x * y)
        if o == 'neg':
            return -self.num(a[0], env)
        if o == '/':
            x, y = self.num(a[0], env), self.num(a[1], env)
            if y == 0:
                raise Undefined('division by zero')
            return fl(x, y, lambda x, y: x / y)
        if o == 'ite':
            return self.ev(a[1] if self.bool(a[0], env) else a[2], env)
        if o == 'not':
            return not self.bool(a[0], env)
        if o == 'and':
            return self.bool(a[0], env) and self.bool(a[1], env)
        if o == 'or':
            return self.bool(a[0], env) or self.bool(a[1], env)
        if o == 'lt':
            return self.num(a[0], env) < self.num(a[1], env)
        if o == 'eq':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, Cont) or isinstance(y, Cont) or isinstance(x, dict):
                return same(x, y)
            return x == y
        if o == 'phi':
            l = env.get(a[0])
            if l is None:
                raise Undefined('phi')
            v = l[1][a[1]]
            if v is None or isinstance(v, Undefined):
                raise Undefined('undefined loop value') if v is None else v
            return v
        if o == 'iter':
            return Fraction(env['L%s' % a[0]][2])
        if o == 'formal':
            return env['F'][1][a[0]]
        if o == 'mu':
            lv = 'L%s' % a[0]
            vals = [self.soft(x, env) if x is not UNDEF else None for x in a[4]]
            j = 0
            self.serial = getattr(self, 'serial', 0)
            while True:
                e2 = dict(env)
                self.serial += 1
                e2[lv] = (self.serial, vals, j)
                if not self.bool(a[3], e2):
                    break
                vals = [self.soft(x, e2) for x in a[2]]
                j += 1
                if j > 3000:
                    raise Undefined('loop does not end')
            if a[1] == 'trip':
                return Fraction(j)
            if vals[0] is None or isinstance(vals[0], Undefined):
                raise vals[0] or Undefined('undefined loop value')
            return vals[0]
        if o == 'sel':
            c = self.ev(a[0], env)
            if isinstance(a[1], str):
                if isinstance(c, dict) and a[1] in c:
                    return c[a[1]]
                raise Undefined('field')
            if not isinstance(c, Cont):
                raise Undefined('element')
            i = self.idx(a[1], env)
            if not 0 <= i < len(c.e):
                raise Undefined('index %d of %d' % (i, len(c.e)))
            return c.e[i]
        if o == 'sto':
            c = self.ev(a[0], env)
            v = self.ev(a[2], env)
            if isinstance(a[1], str):
                if not isinstance(c, dict):
                    c = {}
                d = dict(c)
                d[a[1]] = v
                return d
            i = self.idx(a[1], env)
            if not isinstance(c, Cont) or not 0 <= i < len(c.e):
                raise Undefined('store')
            e = list(c.e)
            e[i] = v
            return Cont(e, c.cap)
        if o == 'struct':
            r = {k: self.ev(v, env) for k, v in a[1]}
            if a[0].split('<')[0].endswith('reverse_iterator'):
                r['#rev'] = True
            return r
        if o == 'zip':
            f, ka, kb, x, y = t.args
            x = self.cont(x, env) if ka else self.ev(x, env)
            y = self.cont(y, env) if kb else self.ev(y, env)
            if ka and kb and len(x.e) != len(y.e):
                raise Undefined('lengths')
            from terms import ZIP, const, select
            n = len(x.e) if ka else len(y.e)
            return Cont([self.ev(ZIP[f](const(x.e[k] if ka else x), const(y.e[k] if kb else y)), env) for k in range(n)])
        if o == 'tab':
            n, c = self.idx(t.args[0], env), self.cont(t.args[1], env)
            a, b = self.idx(t.args[2], env), self.idx(t.args[3], env)
            if n < 0 or any(not 0 <= a * k + b < len(c.e) for k in range(n)):
                raise Undefined('range')
            return Cont([c.e[a * k + b] for k in range(n)])
        if o == 'vecfill':
            n = self.idx(a[0], env)
            v = self.ev(a[1], env)
            if not 0 <= n < 5000:
                raise Undefined('size')
            return Cont([v] * n)
        if o == 'push':
            c = self.cont(a[0], env)
            return Cont(c.e + [self.ev(a[1], env)])
        if o == 'cbpush':
            c = self.cont(a[0], env)
            if c.cap == 0:
                return c
            e = c.e + [self.ev(a[1], env)]
            if len(e) > c.cap:
                e = e[1:]
            return Cont(e, c.cap)
        if o == 'cbnew':
            return Cont([], self.idx(a[0], env))
        if o == 'cbclear':
            return Cont([], self.cont(a[0], env).cap)
        if o == 'cbsetcap':
            c = self.cont(a[0], env)
            n = self.idx(a[1], env)
            return Cont(c.e[:n], n)
        if o == 'empty':
            return Cont([])
        if o == 'resized':
            n = self.idx(a[0], env)
            c = self.cont(a[1], env)
            if n < 0:
                raise Undefined('size')
            return Cont((c.e + [self.ev(a[2], env)] * n)[:n])
        if o == 'slice':
            c = self.cont(a[0], env)
            i, j = self.idx(a[1], env), self.idx(a[2], env)
            if not 0 <= i <= j <= len(c.e):
                raise Undefined('slice')
            return Cont(c.e[i:j])
        if o == 'size':
            return Fraction(len(self.cont(a[0], env).e))
        if o == 'cap':
            c = self.cont(a[0], env)
            return Fraction(c.cap if c.cap is not None else len(c.e))
        if o == 'uninit':
            s = a[0]
            if s.startswith('array<'):
                return Cont([mk('garbage', k) for k in range(int(split_targs(s)[1][1].rstrip('UL')))])
            raise Undefined('uninit')
        if o == 'zero':
            return mk('zero')
        if o == 'undef':
            raise Undefined('undefined value')
        if o == 'it':
            return {'c': self.ev(a[0], env), 'off': self.num(a[1], env), '#it': True}
        if o == 'ref':
            return self.ev(a[0], env)
        if o in ('cmp', 'functor', 'lambda', 'fnptr'):
            return (o, t, env)
        if o == 'fn':
            return self.fnv(a, env)
        raise Undefined('op ' + o)

    def less(self, t, env):
        """comparator as a Python predicate"""
        if t is None:
            return lambda x, y: x < y
        if t.op == 'cmp':
            def f(x, y):
                self.serial = getattr(self, 'serial', 0) + 1
                e2 = dict(env)
                e2['F'] = (self.serial, (x, y))
                return self.bool(t.args[0], e2)
            return f
        raise Undefined('comparator')

    def pred(self, t, env):
        def f(x):
            self.serial = getattr(self, 'serial', 0) + 1
            e2 = dict(env)
            e2['F'] = (self.serial, (x,))
            return self.bool(t.args[0], e2)
        if t.op != 'cmp':
            raise Undefined('predicate')
        return f

    def fnv(self, a, env):
        n = a[0]
        ar = a[1:]
        if n in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'atan', 'log1p', 'expm1', 'asin', 'acos', 'tanh'):
            x = float(self.num(ar[0], env))
            try:
                return getattr(math, n)(x)
            except (ValueError, OverflowError):
                raise Undefined(n)
        if n == 'cbrt':
            x = float(self.num(ar[0], env))
            return math.copysign(abs(x) ** (1 / 3), x)
        if n in ('ceil', 'floor', 'trunc'):
            x = self.num(ar[0], env)
            if isinstance(x, float) and not math.isfinite(x):
                raise Undefined(n)
            return Fraction(getattr(math, n)(x))
        if n in ('round', 'rint', 'nearbyint'):
            x = self.num(ar[0], env)
            return Fraction(math.floor(x + Fraction(1, 2)))
        if n == 'pow':
            x, y = self.num(ar[0], env), self.num(ar[1], env)
            if isinstance(x, Fraction) and isinstance(y, Fraction) and y.denominator == 1 and abs(y) < 40 and (x != 0 or y > 0):
                return x ** int(y)
            try:
                r = float(x) ** float(y)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Undefined('pow')
            if isinstance(r, complex):
                raise Undefined('pow')
            return r
        if n == 'idiv':
            x, y = self.num(ar[0], env), self.num(ar[1], env)
            if y == 0:
                raise Undefined('division by zero')
            return Fraction(math.trunc(x / y))
        if n == 'mod':
            x, y = self.idx(ar[0], env), self.idx(ar[1], env)
            if y == 0:
                raise Undefined('division by zero')
            return Fraction(int(math.fmod(x, y)))
        if n == 'toint':
            x = self.num(ar[0], env)
            if isinstance(x, float) and not math.isfinite(x):
                raise Undefined('toint')
            return Fraction(math.trunc(x))
        if n == 'narrow':
            x = self.num(ar[1], env)
            if ar[0] == 'float':
                import struct
                return Fraction(struct.unpack('f', struct.pack('f', float(x)))[0]) if math.isfinite(float(x)) else x
            from prog import WIDTH
            w = WIDTH.get(ar[0])
            if w is None:
                raise Undefined('narrow')
            v = int(x) & (2 ** w - 1)
            if not ar[0].startswith('unsigned') and v >= 2 ** (w - 1):
                v -= 2 ** w
            return Fraction(v)
        if n in ('isnan', 'isinf', 'isfinite'):
            return getattr(math, n)(self.num(ar[0], env))
        if n in ('&', '|', '^', '<<', '>>'):
            x, y = self.idx(ar[0], env), self.idx(ar[1], env)
            return Fraction({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << min(y, 64), '>>': x >> min(y, 64)}[n])
        if n in TM.PERM:
            c = self.cont(ar[0], env)
            i, j = self.idx(ar[1], env), self.idx(ar[2], env)
            if not 0 <= i <= j <= len(c.e):
                raise Undefined('range')
            e = list(c.e)
            s = e[i:j]
            if n == 'reverse':
                s.reverse()
            else:
                lt_ = self.less(ar[3] if len(ar) > 3 else None, env)
                s = heapop(n, s, lt_)
            e[i:j] = s
            return Cont(e, c.cap)
        if n in ('lower_bound', 'upper_bound'):
            c = self.cont(ar[0], env)
            i, j = self.idx(ar[1], env), self.idx(ar[2], env)
            v = self.ev(ar[3], env)
            lt_ = self.less(ar[4] if len(ar) > 4 else None, env)
            if not 0 <= i <= j <= len(c.e):
                raise Undefined('range')
            while i < j:
                m = (i + j) // 2
                go = lt_(c.e[m], v) if n == 'lower_bound' else not lt_(v, c.e[m])
                if go:
                    i = m + 1
                else:
                    j = m
            return Fraction(i)
        if n in ('min_element', 'max_element'):
            c = self.cont(ar[0], env)
            i, j = self.idx(ar[1], env), self.idx(ar[2], env)
            lt_ = self.less(ar[3] if len(ar) > 3 else None, env)
            if not 0 <= i <= j <= len(c.e):
                raise Undefined('range')
            b = i
            for k in range(i + 1, j):
                if (lt_(c.e[k], c.e[b]) if n == 'min_element' else lt_(c.e[b], c.e[k])):
                    b = k
            return Fraction(b)
        if n in ('find', 'find_if'):
            c = self.cont(ar[0], env)
            i, j = self.idx(ar[1], env), self.idx(ar[2], env)
            p = self.pred(ar[3], env) if n == 'find_if' else None
            v = self.ev(ar[3], env) if n == 'find' else None
            for k in range(i, min(j, len(c.e))):
                if (p(c.e[k]) if p else c.e[k] == v):
                    return Fraction(k)
            return Fraction(j)
        if n == 'fill':
            c = self.cont(ar[0], env)
            i, j = self.idx(ar[1], env), self.idx(ar[2], env)
            if not 0 <= i <= j <= len(c.e):
                raise Undefined('range')
            e = list(c.e)
            e[i:j] = [self.ev(ar[3], env)] * (j - i)
            return Cont(e, c.cap)
        if n == 'copied':
            d = self.cont(ar[0], env)
            o = self.idx(ar[1], env)
            if len(ar) == 5:
                c = self.cont(ar[2], env)
                i, j = self.idx(ar[3], env), self.idx(ar[4], env)
                if not 0 <= i <= j <= len(c.e):
                    raise Undefined('range')
                s = c.e[i:j]
            else:
                s = self.iterate(self.ev(ar[2], env), self.ev(ar[3], env))
            if not 0 <= o <= len(d.e) - len(s):
                raise Undefined('copy past the end')
            e = list(d.e)
            e[o:o + len(s)] = s
            return Cont(e, d.cap)
        if n == 'range':
            return Cont(self.iterate(self.ev(ar[0], env), self.ev(ar[1], env)))
        raise Undefined('fn ' + str(n))

    # ---- iterator adaptors, recognised by their members
    def pos(self, i):
        if isinstance(i, dict):
            if i.get('#it'):
                return i['off']
            if 'm_iterator' in i:
                return self.pos(i['m_iterator']) * (-1 if i.get('#rev') else 1)
            if 'm_base' in i:
                return self.pos(i['m_base'])
            if 'current' in i:
                return -self.pos(i['current'])
        if isinstance(i, (Fraction, float)):
            return i
        raise Undefined('iterator')

    def at(self, i, k):
        if isinstance(i, (Fraction, float)):
            return i + k
        if i.get('#it'):
            j = int(i['off'] + k)
            c = i['c']
            if not isinstance(c, Cont) or not 0 <= j < len(c.e):
                raise Undefined('iterator range')
            return c.e[j]
        if 'm_elt_iter' in i:
            return self.at(i['m_elt_iter'], self.at(i['m_iterator'], k))
        if 'm_f' in i:
            f = i['m_f']
            x = self.at(i['m_iterator'], k)
            if isinstance(f, dict) and 'value' in f:
                return f['value'] * x
            raise Undefined('transform')
        if 'm_iterator' in i:
            return self.at(i['m_iterator'], -k - 1 if i.get('#rev') else k)
        raise Undefined('iterator')

    def iterate(self, a, b):
        n = self.pos(b) - self.pos(a)
        if n != int(n) or not 0 <= n < 5000:
            raise Undefined('iterator distance')
        return [self.at(a, k) for k in range(int(n))]


def fl(x, y, f):
    try:
        if isinstance(x, float) or isinstance(y, float):
            r = f(float(x), float(y))
            return r
        return f(x, y)
    except (OverflowError, ZeroDivisionError):
        raise Undefined('overflow')


def heapop(n, s, lt_):
    import functools
    if n in ('sort', 'stable_sort', 'sort_heap'):
        return sorted(s, key=functools.cmp_to_key(lambda x, y: -1 if lt_(x, y) else (1 if lt_(y, x) else 0)))
    if n == 'push_heap':
        s = list(s)
        i = len(s) - 1
        while i > 0:
            p = (i - 1) // 2
            if lt_(s[p], s[i]):
                s[p], s[i] = s[i], s[p]
                i = p
            else:
                break
        return s
    if n == 'make_heap':
        s = list(s)
        for i in range(len(s) // 2 - 1, -1, -1):
            sift(s, i, len(s), lt_)
        return s
    if n == 'pop_heap':
        s = list(s)
        if s:
            s[0], s[-1] = s[-1], s[0]
            sift(s, 0, len(s) - 1, lt_)
        return s
    raise Undefined(n)


def sift(s, i, n, lt_):
    while True:
        c = 2 * i + 1
        if c >= n:
            return
        if c + 1 < n and lt_(s[c], s[c + 1]):
            c += 1
        if lt_(s[i], s[c]):
            s[i], s[c] = s[c], s[i]
            i = c
        else:
            return


def same(x, y, tol=1e-7):
    if isinstance(x, T) or isinstance(y, T):
        return x is y
    if isinstance(x, bool):
        x = Fraction(int(x))
    if isinstance(y, bool):
        y = Fraction(int(y))
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x == y
    if isinstance(x, (Fraction, float)) and isinstance(y, (Fraction, float)):
        x, y = float(x), float(y)
        if x != x or y != y:
            return x != x and y != y
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    if isinstance(x, Cont) and isinstance(y, Cont):
        return len(x.e) == len(y.e) and all(same(p, q, tol) for p, q in zip(x.e, y.e))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(same(x[k], y[k], tol) for k in x)
    return x == y


class Leaves:
    """random valuation of symbols by type"""

    def __init__(self, rnd, n=None, given=None, sizes=()):
        self.r = rnd
        self.v = {}
        self.sizes = sizes
        self.size = None
        if sizes and n is None and rnd.random() < 0.25:
            n = self.size = max(1, rnd.choice(sizes) + rnd.randint(-1, 2))
        self.n = n if n is not None else rnd.randint(1, 6)
        self.given = given

    def scalar(self, ty):
        r = self.r
        if ty == 'bool':
            return r.random() < 0.5
        if ty in INTS:
            if WIDTH[ty] <= 16 and r.random() < 0.1:
                return Fraction(2 ** (WIDTH[ty] if ty.startswith('unsigned') else WIDTH[ty] - 1) - 1)
            return Fraction(r.randint(0, 9)) if ty.startswith('unsigned') else Fraction(r.randint(-6, 9))
        m = r.random()
        if m < 0.3:
            return Fraction(r.randint(-5, 7))
        return Fraction(r.randint(-400, 600), 64)

    def make(self, ty):
        if ty in INTS or ty in FLOATS:
            return self.scalar(ty)
        if ty.startswith(('std::vector<', 'boost::circular_buffer<', 'std::valarray<')):
            el = split_targs(ty)[1][0]
            if el == 'unsigned long':
                p = list(range(self.n))
                self.r.shuffle(p)
                return Cont([Fraction(x) for x in p])
            return Cont([self.make(el) for _ in range(self.n)], self.n + self.r.randint(0, 1) if 'circular' in ty.split('<')[0] else None)
        if ty.startswith(('boost::array<', 'std::array<')):
            el, n = split_targs(ty)[1][:2]
            return Cont([self.make(el) for _ in range(int(n.rstrip('UL')))])
        if ty.startswith('std::pair<'):
            x, y = split_targs(ty)[1][:2]
            return {'first': self.make(x), 'second': self.make(y)}
        raise Undefined('leaf of type ' + ty)

    def __call__(self, s):
        if s.id in self.v:
            return self.v[s.id][1]
        v = None
        if self.given is not None:
            v = self.given(s, self)
        if v is None:
            if s.args[0] == 'limits':
                v = LIM.get(s.args[1], LIM['double']).get(s.args[2])
                if v is None:
                    raise Undefined('limit')
            else:
                ty = (s.attr or {}).get('ty')
                if ty is None:
                    if s.attr and s.attr.get('bool'):
                        ty = 'bool'
                    elif s.attr and s.attr.get('int'):
                        ty = 'unsigned long' if s.attr.get('nn') else 'int'
                    elif s.attr and s.attr.get('num'):
                        ty = 'double'
                    else:
                        raise Undefined('leaf ' + show(s))
                v = self.make(ty)
        self.v[s.id] = (s, v)
        return v

    def text(self, limit=14):
        out = []
        for s, v in self.v.values():
            out.append('%s=%s' % (show(s), pv(v) if not isinstance(v, Cont) else str(v)))
        return ', '.join(out[:limit])


def _handles(lv):
    """numeric positions of a valuation: (key, value, integral)"""
    out = []
    for sid, (s, v) in lv.v.items():
        ty = (s.attr or {}).get('ty', '')
        if s.args[0] == 'limits':
            continue
        if isinstance(v, Fraction):
            out.append(((sid,), v, ty in INTS or bool((s.attr or {}).get('int')), ty.startswith('unsigned')))
        elif isinstance(v, Cont):
            el = split_targs(ty)[1][0] if '<' in ty else ''
            if el == 'unsigned long':
                continue
            for i, x in enumerate(v.e):
                if isinstance(x, Fraction):
                    out.append(((sid, i), x, el in INTS, el.startswith('unsigned')))
    return out


def _with(lv, key, val):
    n = Leaves(lv.r, lv.n, lv.given)
    n.size = lv.size
    n.v = dict(lv.v)
    s, v = n.v[key[0]]
    if len(key) == 1:
        n.v[key[0]] = (s, val)
    else:
        e = list(v.e)
        e[key[1]] = val
        n.v[key[0]] = (s, Cont(e, v.cap))
    return n


def _value(t, lv):
    v = Val(lv).ev(t)
    return v if isinstance(v, Fraction) else None


def _aim(t, target, lv, avoid):
    """change one position of the valuation so that t takes the value target"""
    f0 = _value(t, lv)
    if f0 is None:
        return None
    if f0 == target:
        return lv, None
    hs = [h for h in _handles(lv) if h[0] not in avoid]
    lv.r.shuffle(hs)
    for key, v, integral, uns in hs[:60]:
        f1 = _value(t, _with(lv, key, v + 1))
        if f1 is None or f1 == f0:
            continue
        x = v + (target - f0) / (f1 - f0)
        if integral and x.denominator != 1 or uns and x < 0:
            continue
        n = _with(lv, key, x)
        if _value(t, n) == target:
            return n, key
    return None


def conditions(ts):
    """closed comparisons occurring in terms"""
    out = []
    seen = {}
    for t in ts:
        subterms(t, seen)
    for t in seen.values():
        if t.op in ('lt', 'eq') and not _free(t, FREE) and not any(x in (TRUE, FALSE) or is_bool(x) for x in t.args):
            out.append(t)
    return out


def big_sizes(ts):
    """container sizes that the terms mention"""
    out, memo = set(), {}
    for t in ts:
        for u in TM.subterms(t).values() if isinstance(t, T) else ():
            if u.op == 'c' and isinstance(u.args[0], Fraction) and u.args[0].denominator == 1 and 6 <= u.args[0] <= 700:
                out.add(int(u.args[0]))
            elif u.op == 'fn' and u.args[0] == 'narrow' and u.args[1] in ('char', 'signed char', 'unsigned char'):
                out.add(256 if u.args[1] == 'unsigned char' else 128)
    return sorted(out)


def separate(a, b, assume=(), given=None, trials=400, seed=1, need=1, trail=(), limit_s=25):
    """-> (text of a separating valuation, value a, value b) or None; also number of usable valuations.
    Valuations are drawn at random and then moved onto the boundaries of the comparisons in the terms
    (first those of the case in which the normal forms differ)."""
    import time
    t0 = time.time()
    rnd = random.Random(seed)
    used = 0
    hits = 0

    def attempt(lv):
        va = Val(lv)
        if not all(va.bool(x, {}) for x in assume):
            return None
        x = va.ev(a)
        y = va.ev(b)
        return x, y

    sizes = big_sizes([a, b])
    pool = []
    for k in range(trials):
        lv = Leaves(rnd, given=given, sizes=sizes)
        try:
            r = attempt(lv)
        except Undefined:
            continue
        if len(pool) < 60:
            pool.append(lv)
        if r is None:
            continue
        used += 1
        if not same(*r):
            hits += 1
            if hits >= need:
                return (lv.text(), r[0], r[1]), used
        if time.time() - t0 > limit_s:
            break
    conds = conditions([a, b] + list(assume))
    n = 0
    while pool and time.time() - t0 < limit_s and n < 2 * trials:
        n += 1
        lv = rnd.choice(pool)
        avoid = set()
        try:
            if trail and n % 2:
                for d in trail:
                    if d['kind'] == 'pt':
                        r = _aim(TM.poly_term(d['P']), d['val'], lv, avoid)
                    elif d['kind'] == 'reg':
                        P = TM.poly_term(d['P'])
                        v = _value(P, lv)
                        lo, hi = d['lo'], d['hi']
                        if v is None or (lo is None or v > lo) and (hi is None or v < hi):
                            continue
                        tgt = (lo + hi) / 2 if lo is not None and hi is not None else (lo + 1 if lo is not None else hi - 1)
                        r = _aim(P, tgt, lv, avoid)
                    else:
                        continue
                    if r is not None:
                        lv = r[0]
                        avoid.add(r[1])
            elif conds:
                for _ in range(rnd.choice((1, 1, 2))):
                    c = rnd.choice(conds)
                    r = _aim(sub(c.args[0], c.args[1]), rnd.choice((Fraction(0), Fraction(0), Fraction(1), Fraction(-1))), lv, avoid)
                    if r is not None:
                        lv = r[0]
                        avoid.add(r[1])
            else:
                break
            r = attempt(lv)
        except Undefined:
            continue
        if r is None:
            continue
        used += 1
        if not same(*r):
            return (lv.text(), r[0], r[1]), used
    return None, used
