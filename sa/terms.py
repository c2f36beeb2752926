"""Hash-consed value numbers with an exact normal form.

Arithmetic terms are normalised to quotients of multivariate polynomials with rational
coefficients over opaque atoms, conditionals are kept as gates (ite), and two value numbers are
compared gate by gate.  Nothing is executed and no solver is involved: the comparison is a
rewriting to normal form plus a finite case distinction over the gates that occur in the terms."""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'args', 'id', 'attr', '_norm', '_conds', '_h')
    table = {}
    count = 0

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, _lift(o))

    def __radd__(self, o):
        return add(_lift(o), self)

    def __sub__(self, o):
        return sub(self, _lift(o))

    def __rsub__(self, o):
        return sub(_lift(o), self)

    def __mul__(self, o):
        return mul(self, _lift(o))

    def __rmul__(self, o):
        return mul(_lift(o), self)

    def __truediv__(self, o):
        return div(self, _lift(o))

    def __rtruediv__(self, o):
        return div(_lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, k):
        r = ONE
        for _ in range(k):
            r = mul(r, self)
        return r


def _lift(o):
    return o if isinstance(o, T) else const(o)


def _key(a):
    if isinstance(a, T):
        return ('t', a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, bool):
        return ('b', a)
    return a


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = T.count
        T.count += 1
        t.attr = None
        t._norm = None
        t._conds = None
        T.table[k] = t
    return t


def const(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return mk('c', Fraction(x))


def sym(*name):
    return mk('sym', *name)


def fn(name, *args):
    return mk('fn', name, *args)


TRUE = mk('true')
FALSE = mk('false')
ZERO = const(0)
ONE = const(1)
UNDEF = mk('undef')


def setattr_(t, integral=None, nonneg=None, boolean=None):
    if t.op in ('c', 'ite', '+', '*', '/', 'neg'):
        return t
    a = dict(t.attr or {})
    if integral:
        a['int'] = True
    if nonneg:
        a['nn'] = True
    t.attr = a
    return t


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] + b.args[0])
    return mk('+', a, b)


def neg(a):
    if a.op == 'c':
        return const(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] * b.args[0])
    return mk('*', a, b)


def div(a, b):
    if b is ONE:
        return a
    return mk('/', a, b)


def is_bool(t):
    return t.op in ('true', 'false', 'not', 'and', 'or', 'lt', 'eq', 'bool') or (t.op == 'ite' and is_bool(t.args[1]) and is_bool(t.args[2])) or bool(t.attr and t.attr.get('bool'))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a is not_(b):
        return FALSE
    return mk('and', a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a is not_(b):
        return TRUE
    return mk('or', a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    return mk('ite', c, a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return const(bool(a.args[0] < b.args[0]))
    return mk('lt', a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return const(bool(a.args[0] == b.args[0]))
    if a in (TRUE, FALSE) and is_bool(b):
        return b if a is TRUE else not_(b)
    if b in (TRUE, FALSE) and is_bool(a):
        return a if b is TRUE else not_(a)
    return mk('eq', a, b)


def le(a, b):
    return not_(lt(b, a))


def truth(t):
    """value used as a condition"""
    if is_bool(t):
        return t
    if t.op == 'c':
        return const(t.args[0] != 0)
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return not_(eq(t, ZERO))


def num(t):
    if is_bool(t):
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return ite(t, ONE, ZERO) if not (t.op == 'ite') else ite(t.args[0], num(t.args[1]), num(t.args[2]))
    return t


# ---------------------------------------------------------------- containers
PERM = {'sort', 'sort_heap', 'push_heap', 'pop_heap', 'make_heap', 'reverse', 'stable_sort', 'partial_sort', 'nth_element', 'rotate'}


def select(c, i):
    o = c.op
    if o == 'sto':
        base, j, v = c.args
        if isinstance(i, str) or isinstance(j, str):
            if i == j:
                return v
            return select(base, i)
        if i is j:
            return v
        d = poly_const(sub(i, j))
        if d is not None:
            return v if d == 0 else select(base, i)
        return ite(eq(i, j), v, select(base, i))
    if o == 'ite':
        return ite(c.args[0], select(c.args[1], i), select(c.args[2], i))
    if o == 'struct':
        d = dict(c.args[1])
        if isinstance(i, str) and i in d:
            return d[i]
    if o == 'vecfill':
        return c.args[1]
    if o == 'zip' and not isinstance(i, str):
        # element-wise operation on containers (and scalars)
        f, ka, kb, a, b = c.args
        return ZIP[f](select(a, i) if ka else a, select(b, i) if kb else b)
    if o == 'tab' and not isinstance(i, str):
        # element i of an affine view of a container
        return select(c.args[1], add(mul(c.args[2], i), c.args[3]))
    if o == 'push' and not isinstance(i, str):
        s = size_of(c.args[0])
        d = poly_const(sub(i, s))
        if d is not None:
            return c.args[1] if d == 0 else select(c.args[0], i)
        return ite(eq(i, s), c.args[1], select(c.args[0], i))
    if o == 'cbpush' and not isinstance(i, str):
        b = c.args[0]
        s = size_of(b)
        full = eq(s, cap_of(b))
        last = ite(full, sub(s, ONE), s)
        old = ite(full, select(b, add(i, ONE)), select(b, i))
        if s.op == 'c' and i.op == 'c' and s.args[0] == 0:
            old = mk('sel', b, i)
        return ite(eq(i, last), c.args[1], old)
    if o == 'mu' and c.args[1] == 'val' and not isinstance(i, str):
        m = _map_loop(c)
        if m is not None:
            phi, j, g, n = m
            old = select(c.args[4][0], i)
            here = subst(g, {mk('sel', phi, j): old, j: i}) if phi is not None else subst(g, {j: i})
            return ite(lt(i, n), here, old)
    return mk('sel', c, i)


_MAPS = {}
ZIP = {}


def _map_loop(c):
    """a loop that assigns g(j) to element j of one container, for j below n: (phi, j, g, n)"""
    if c.id in _MAPS:
        return _MAPS[c.id]
    r = None
    lvl, _, nx, cond, init = c.args
    if len(nx) == 1 and cond.op == 'lt':
        j = mk('iter', lvl)
        phi = mk('phi', 'L%d' % lvl, 0)
        n = cond.args[1]
        t = nx[0]
        g = None
        if t.op == 'sto' and t.args[0] is phi and t.args[1] is j:
            g = t.args[2]
        elif t.op == 'ite':
            own = mk('sel', phi, j)
            g = t
            for side in (1, 2):
                a = t.args[side]
                if a.op == 'sto' and a.args[0] is phi and a.args[1] is j and t.args[3 - side] is phi:
                    g = ite(t.args[0], a.args[2], own) if side == 1 else ite(t.args[0], own, a.args[2])
            if g is t:
                g = None
        if g is not None and cond.args[0] is j:
            own = mk('sel', phi, j)
            hole = sym('#own')
            bare = subst(g, {own: hole})
            loopy = lambda x: x.op in ('phi', 'mu') or x.op == 'iter' and x is not j
            if not contains(bare, loopy) and not contains(n, lambda x: x.op in ('phi', 'mu', 'iter')):
                r = (phi if bare is not g else None, j, g, n)
    _MAPS[c.id] = r
    return r


def cap_of(c):
    o = c.op
    if o == 'sto' and not isinstance(c.args[1], str):
        return cap_of(c.args[0])
    if o in ('cbpush', 'cbclear'):
        return cap_of(c.args[0])
    if o in ('cbsetcap', 'cbnew'):
        return c.args[-1]
    if o == 'ite':
        return ite(c.args[0], cap_of(c.args[1]), cap_of(c.args[2]))
    t = mk('cap', c)
    t.attr = {'int': True, 'nn': True}
    return t


def store(c, i, v):
    if c.op == 'sto':
        j = c.args[1]
        if i is j or (isinstance(i, str) and i == j):
            return store(c.args[0], i, v)
        # canonical order of stores at distinct constant positions
        if not isinstance(i, str) and not isinstance(j, str) and i.op == 'c' and j.op == 'c' and i.args[0] < j.args[0]:
            return mk('sto', store(c.args[0], i, v), j, c.args[2])
        if isinstance(i, str) and isinstance(j, str) and i < j:
            return mk('sto', store(c.args[0], i, v), j, c.args[2])
    if v.op == 'sel' and v.args[0] is c and v.args[1] is i:
        return c
    return mk('sto', c, i, v)


def size_of(c):
    o = c.op
    if o == 'sto' and not isinstance(c.args[1], str):
        return size_of(c.args[0])
    if o == 'ite':
        return ite(c.args[0], size_of(c.args[1]), size_of(c.args[2]))
    if o in ('vecfill', 'resized', 'tab'):
        return c.args[0]
    if o == 'zip':
        return size_of(c.args[3] if c.args[1] else c.args[4])
    if o == 'push':
        return add(size_of(c.args[0]), ONE)
    if o in ('empty', 'cbclear', 'cbnew'):
        return ZERO
    if o == 'cbpush':
        s = size_of(c.args[0])
        return ite(eq(s, cap_of(c.args[0])), s, add(s, ONE))
    if o == 'fn' and c.args[0] in PERM:
        return size_of(c.args[1])
    if o == 'slice':
        return sub(c.args[2], c.args[1])
    if o == 'mu' and c.args[1] == 'val':
        # element writes do not change the size
        n0 = c.args[2][0]
        b = n0
        while b.op in ('sto', 'ite'):
            if b.op == 'ite':
                b1 = b.args[1]
                while b1.op == 'sto':
                    b1 = b1.args[0]
                b = b1 if b1.op == 'phi' else b.args[2]
            else:
                b = b.args[0]
        if b.op == 'phi' and b.args[1] == 0:
            return size_of(c.args[4][0])
    t = mk('size', c)
    t.attr = {'int': True, 'nn': True}
    return t


# ---------------------------------------------------------------- polynomials
# poly: dict  monomial (tuple of (atom id, exponent)) -> Fraction
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


P1 = {(): Fraction(1)}
P0 = {}
ATOMS = {}     # atom id -> representative term
_atom_index = {}   # head -> list of terms
_atom_of = {}


def atom(t):
    """canonical representative id of an opaque numeric term (arguments compared in normal form)"""
    r = _atom_of.get(t.id)
    if r is not None:
        return r
    head = (t.op, tuple(('T',) if isinstance(a, T) else _shape(a) for a in t.args))
    _prep(t)      # arguments first: a candidate's arguments are always in normal form already
    r = _atom_of.get(t.id)
    if r is not None:
        return r
    cands = _atom_index.setdefault(head, [])
    for c in cands:
        if _same_args(c.args, t.args):
            if t.attr and not c.attr:
                c.attr = t.attr
            _atom_of[t.id] = c.id
            return c.id
    cands.append(t)
    _atom_of[t.id] = t.id
    ATOMS[t.id] = t
    return t.id


_prepped = set()


def _prep(t):
    for a in _targs(t.args):
        if a.id in _prepped:
            continue
        if a.op in BOOLS:
            _prep(a)
        else:
            norm(a)
        _prepped.add(a.id)


def _shape(a):
    if isinstance(a, T):
        return ('T',)
    if isinstance(a, tuple):
        return tuple(_shape(x) for x in a)
    return ('v', a)


def _same_args(xs, ys):
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if isinstance(x, T):
            if not isinstance(y, T) or not plain_equal(x, y):
                return False
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or not _same_args(x, y):
                return False
        elif x != y:
            return False
    return True


def plain_equal(x, y):
    """equality in normal form without case distinction (gates inside are atoms)"""
    if x is y:
        return True
    k = (x.id, y.id)
    r = _pe.get(k)
    if r is None:
        r = _plain_equal(x, y)
        _pe[k] = r
    return r


_pe = {}


def _plain_equal(x, y):
    if x.op in BOOLS or y.op in BOOLS:
        if x.op != y.op:
            return False
        if x.op in ('lt',):
            return plain_equal(sub(x.args[0], x.args[1]), sub(y.args[0], y.args[1]))
        if x.op == 'eq':
            d = sub(x.args[0], x.args[1])
            e = sub(y.args[0], y.args[1])
            return plain_equal(d, e) or plain_equal(d, neg(e))
        if x.op in ('and', 'or'):
            return _same_args(x.args, y.args) or _same_args(x.args, y.args[::-1])
        return _same_args(x.args, y.args)
    n1, d1 = norm(x)
    n2, d2 = norm(y)
    if d1 == d2:
        return n1 == n2
    return pmul(n1, d2) == pmul(n2, d1)


BOOLS = ('true', 'false', 'not', 'and', 'or', 'lt', 'eq')


def _sqrt_red(p):
    """sqrt(e)^2 = e"""
    for m in p:
        for a, e in m:
            if e >= 2 and ATOMS[a].op == 'fn' and ATOMS[a].args[0] == 'sqrt':
                n, d = norm(ATOMS[a].args[1])
                if d != P1:
                    return p
                q = {}
                for m2, c2 in p.items():
                    dd = dict(m2)
                    k = dd.get(a, 0)
                    term = {tuple(sorted((x, y) for x, y in dd.items() if x != a)): c2}
                    if k % 2:
                        term = pmul(term, {((a, 1),): Fraction(1)})
                    for _ in range(k // 2):
                        term = pmul(term, n)
                    q = padd(q, term)
                return _sqrt_red(q)
    return p


def norm(t):
    if t._norm is not None:
        return t._norm
    o = t.op
    if o == 'c':
        c = t.args[0]
        r = ({(): c} if c else {}, P1)
    elif o == '+':
        n1, d1 = norm(t.args[0])
        n2, d2 = norm(t.args[1])
        if d1 == d2:
            r = (padd(n1, n2), d1)
        else:
            r = (padd(pmul(n1, d2), pmul(n2, d1)), pmul(d1, d2))
    elif o == 'neg':
        n, d = norm(t.args[0])
        r = ({m: -c for m, c in n.items()}, d)
    elif o == '*':
        n1, d1 = norm(t.args[0])
        n2, d2 = norm(t.args[1])
        r = (pmul(n1, n2), d1 if d2 == P1 else (d2 if d1 == P1 else pmul(d1, d2)))
    elif o == '/':
        n1, d1 = norm(t.args[0])
        n2, d2 = norm(t.args[1])
        if not n2:
            r = ({((atom(mk('div0', t.args[0])), 1),): Fraction(1)}, P1)
        else:
            r = (pmul(n1, d2), pmul(d1, n2))
    else:
        r = ({((atom(t), 1),): Fraction(1)}, P1)
    n, d = r
    if o in ('*', '/', '+'):
        n = _sqrt_red(n)
        d = _sqrt_red(d) if d != P1 else d
    # cheap reductions
    if not n:
        d = P1
    elif d != P1:
        if len(d) == 1:
            (m, c), = d.items()
            n = {k: v / c for k, v in n.items()}
            # cancel common monomial
            if m:
                com = dict(m)
                for k in n:
                    kk = dict(k)
                    for a in list(com):
                        com[a] = min(com[a], kk.get(a, 0))
                        if not com[a]:
                            del com[a]
                if com:
                    n = {_mdiv(k, com): v for k, v in n.items()}
                    m = _mdiv(m, com)
            d = {m: Fraction(1)}
        elif n == d:
            n, d = P1, P1
        else:
            # scale so the leading coefficient is 1
            lead = d[max(d)]
            if lead != 1:
                n = {k: v / lead for k, v in n.items()}
                d = {k: v / lead for k, v in d.items()}
    t._norm = (n, d)
    return t._norm


def _mdiv(m, com):
    return tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))


def poly_const(t):
    n, d = norm(t)
    if d != P1:
        return None
    if not n:
        return Fraction(0)
    if len(n) == 1 and () in n:
        return n[()]
    return None


# ---------------------------------------------------------------- substitution of conditions
def rewrite(t, f, memo=None):
    """bottom-up rewrite; f(t) -> replacement or None"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    r0 = f(t)
    if r0 is not None:
        memo[t.id] = r0
        return r0
    new = _rw_args(t.args, f, memo)
    if new == t.args:
        r = t
    else:
        r = rebuild(t, new)
    memo[t.id] = r
    return r


def _rw_args(args, f, memo):
    out = []
    for a in args:
        if isinstance(a, T):
            out.append(rewrite(a, f, memo))
        elif isinstance(a, tuple):
            out.append(_rw_args(a, f, memo))
        else:
            out.append(a)
    return tuple(out)


def rebuild(t, args):
    o = t.op
    if o == '+':
        return add(*args)
    if o == '*':
        return mul(*args)
    if o == 'neg':
        return neg(*args)
    if o == '/':
        return div(*args)
    if o == 'ite':
        return ite(*args)
    if o == 'not':
        return not_(*args)
    if o == 'and':
        return and_(*args)
    if o == 'or':
        return or_(*args)
    if o == 'lt':
        return lt(*args)
    if o == 'eq':
        return eq(*args)
    if o == 'sel':
        return select(*args)
    if o == 'sto':
        return store(*args)
    if o == 'size':
        return size_of(*args)
    if o == 'cap':
        return cap_of(*args)
    r = mk(o, *args)
    if t.attr and not r.attr:
        r.attr = t.attr
    return r


# conditions: canonical descriptor of an atomic condition
def canon_poly(p):
    """p = lead * (P + c) with P without constant part and leading coefficient 1 -> (key, P, c, lead)"""
    ms = [m for m in p if m]
    lead = p[max(ms)]
    P = {m: v / lead for m, v in p.items() if m}
    return tuple(sorted(P.items())), P, p.get((), Fraction(0)) / lead, lead


def integral_poly(P):
    for m, v in P.items():
        if v.denominator != 1:
            return False
        for a, _ in m:
            t = ATOMS[a]
            if not (t.attr and t.attr.get('int')):
                return False
    return True


def cond_key(c):
    """-> ('const', bool) | ('cmp', key, P, threshold, test) | ('opq', atomid)
    test maps the sign of P - threshold to bool"""
    if c is TRUE or c is FALSE:
        return ('const', c is TRUE)
    if c.op in ('lt', 'eq'):
        if c.op == 'eq' and not (_numeric(c.args[0]) or _numeric(c.args[1])):
            return ('opq', atom(c))
        n, d = norm(sub(c.args[0], c.args[1]))
        p = n if d == P1 else pmul(n, d)
        if c.op == 'lt':
            test = {-1: True, 0: False, 1: False}
        else:
            test = {-1: False, 0: True, 1: False}
        if not p:
            return ('const', test[0])
        if len(p) == 1 and () in p:
            return ('const', test[1 if p[()] > 0 else -1])
        key, P, k, lead = canon_poly(p)
        if lead < 0:
            test = {-1: test[1], 0: test[0], 1: test[-1]}
        return ('cmp', key, P, -k, test)
    return ('opq', atom(c))


def _numeric(t):
    return t.op in ('c', '+', '*', 'neg', '/', 'size') or bool(t.attr and (t.attr.get('int') or t.attr.get('num')))


def atoms_conds(t, acc=None, seen=None):
    """atomic conditions occurring in gates of t"""
    if acc is None:
        acc = []
        seen = set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op in ('lt', 'eq') or t.op == 'bool':
        acc.append(t)
    if t.op == 'ite' or t.op in ('and', 'or', 'not'):
        for c in (t.args if t.op != 'ite' else t.args[:1]):
            _bool_atoms(c, acc, seen)
    for a in _targs(t.args):
        atoms_conds(a, acc, seen)
    return acc


def _bool_atoms(c, acc, seen):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            _bool_atoms(x, acc, seen)
    elif c.op == 'ite':
        for x in c.args:
            _bool_atoms(x, acc, seen)
    elif c.op in ('true', 'false'):
        pass
    else:
        if c.id not in seen or c.op not in ('lt', 'eq'):
            acc.append(c)


def _targs(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _targs(a)


class Budget(Exception):
    pass


def equal(a, b, assume=(), budget=None, explain=None):
    """True iff a and b have the same normal form in every case of the gates they contain.
    assume: extra boolean terms taken to be true."""
    budget = budget or [20000]
    return _eq([a, b] + list(assume), [], budget, [], explain)


def _eq(ts, facts, budget, trail, explain):
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    a, b = ts[0], ts[1]
    assume = ts[2:]
    for s in assume:
        if s is FALSE:
            return True
    assume = [s for s in assume if s is not TRUE]
    if a is b:
        return True
    c = _pick(assume) or _pick([a, b])
    if c is None:
        ok = plain_equal(num(a), num(b)) if not (is_bool(a) and is_bool(b)) else plain_equal(a, b)
        if not ok and not (is_bool(a) and is_bool(b)):
            zs = [f[1] for f in facts if f[0] == 'zero']
            if zs:
                ok = _zero_mod(num(a), num(b), zs)
        if not ok and explain is not None and not explain:
            explain.append((list(trail), a, b))
        return ok
    for case, sub_ in cases_of(c, [a, b] + assume, facts):
        ts2 = [rewrite_case(t, sub_) for t in [a, b] + assume]
        f2 = step_facts(facts, sub_)
        if f2 is None:
            continue
        if not _eq(ts2, f2, budget, trail + [(case, sub_)], explain):
            return False
    return True


def _pdiv_rem(p, q):
    """remainder of p modulo q (lexicographic order on a fixed variable order)"""
    def lead(x):
        return max(x, key=_mkey)
    lq = lead(q)
    cq = q[lq]
    dq = dict(lq)
    rem = {}
    p = dict(p)
    n = 0
    while p:
        n += 1
        if n > 4000:
            return None
        m = lead(p)
        dm = dict(m)
        if all(dm.get(a, 0) >= e for a, e in dq.items()):
            f = {_mdiv(m, dq): p[m] / cq}
            p = padd(p, pmul(f, q), -1)
        else:
            rem[m] = p.pop(m)
    return rem


class _mkey:
    """lexicographic monomial order: larger power of the highest-numbered variable first"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = tuple(sorted(m, reverse=True))

    def __lt__(self, o):
        for (a, e), (b, f) in zip(self.m, o.m):
            if a != b:
                return a < b
            if e != f:
                return e < f
        return len(self.m) < len(o.m)

    def __gt__(self, o):
        return o < self


def _zero_mod(a, b, zs):
    """a = b as a consequence of the polynomial equations zs = 0"""
    n1, d1 = norm(a)
    n2, d2 = norm(b)
    D = padd(pmul(n1, d2), pmul(n2, d1), -1)
    # zs may carry (nonzero) denominators as factors
    for z in zs:
        for f in (P1, d1, d2, pmul(d1, d2)):
            if _pdiv_rem(pmul(D, f), z) == {}:
                return True
    for z in zs:
        if not z:
            continue
        D = _pdiv_rem(D, z)
        if D is None:
            return False
        if not D:
            return True
    return False


def step_facts(facts, d):
    """interval facts after a case; None if contradictory.  A fact is (P, lo, hi): lo < P < hi"""
    k = d['kind']
    if k == 'reg':
        return [f for f in facts if f[0] == 'zero' or tuple(sorted(f[0].items())) != d['key']] + [(d['P'], d['lo'], d['hi'])]
    if k == 'pt' and 'solve' not in d:
        return facts + [('zero', padd(d['P'], {(): -d['val']} if d['val'] else {}))]
    if k != 'pt':
        return facts
    aid, val = d['solve']
    out = []
    for f in facts:
        if f[0] == 'zero':
            n, dd = norm(rewrite(poly_term(f[1]), lambda x: val if _is_atom(x, aid) else None))
            if len(n) == 1 and () in n:
                return None
            if n:
                out.append(('zero', n))
            continue
        P, lo, hi = f
        if not any(x == aid for m in P for x, _ in m) and not any(_occurs(aid, ATOMS[x]) for m in P for x, _ in m):
            out.append((P, lo, hi))
            continue
        t = rewrite(poly_term(P), lambda x: val if _is_atom(x, aid) else None)
        n, dd = norm(t)
        if dd != P1:
            continue
        if not n or (len(n) == 1 and () in n):
            v = n.get((), Fraction(0))
            if (lo is not None and v <= lo) or (hi is not None and v >= hi):
                return None
            continue
        key, Q, c, lead = canon_poly(n)
        lo2 = None if lo is None else lo / lead - c
        hi2 = None if hi is None else hi / lead - c
        if lead < 0:
            lo2, hi2 = hi2, lo2
        out.append((Q, lo2, hi2))
    return out


def _is_atom(x, aid):
    return x.op not in ('+', '*', 'neg', '/', 'c', 'ite') and x.op not in BOOLS and _atom_lookup(x) == aid


def _pick(ts):
    """an innermost atomic condition, if any gate is left"""
    for t in ts:
        c = _find_gate(t, set())
        if c is not None:
            return c
    return None


def _find_gate(t, seen):
    if t.id in seen:
        return None
    seen.add(t.id)
    if t.op == 'mu':
        # loop summaries are compared structurally; only their entry values are case split
        for a in _targs((t.args[-1],)):
            r = _find_gate(a, seen)
            if r is not None:
                return r
        return None
    if t.op in ('lambda', 'cmp'):
        return None
    for a in _targs(t.args):
        r = _find_gate(a, seen)
        if r is not None:
            return r
    if t.op in ('lt', 'eq'):
        return t
    if t.op == 'ite':
        return _first_bool(t.args[0])
    if t.op in ('and', 'or', 'not'):
        for x in t.args:
            r = _first_bool(x)
            if r is not None:
                return r
    return None


def _first_bool(c):
    if c.op in ('and', 'or', 'not', 'ite'):
        for x in c.args:
            r = _first_bool(x)
            if r is not None:
                return r
        return None
    if c.op in ('true', 'false'):
        return None
    return c


def cases_of(c, ts, facts=()):
    import math
    k = cond_key(c)
    if k[0] == 'const':
        v = TRUE if k[1] else FALSE
        yield ('%s is %s' % (show(c), v.op), {'kind': 'term', 'id': c.id, 'val': v})
        return
    if k[0] == 'opq':
        aid = k[1]
        for v in (TRUE, FALSE):
            yield ('%s is %s' % (show(c), v.op), {'kind': 'opq', 'aid': aid, 'val': v})
        return
    _, key, P, th0, test = k
    ths = {th0}
    for t in ts:
        for cc in atoms_conds(t):
            kk = cond_key(cc) if cc.op in ('lt', 'eq') else None
            if kk and kk[0] == 'cmp' and kk[1] == key:
                ths.add(kk[3])
    integral = integral_poly(P)
    lo, hi = None, None          # open interval
    if all(v > 0 for v in P.values()) and all(_mono_nn(m) for m in P):
        lo = Fraction(-1) if integral else ('ge', Fraction(0))
    elif all(v < 0 for v in P.values()) and all(_mono_nn(m) for m in P):
        hi = Fraction(1) if integral else ('le', Fraction(0))
    closed0 = isinstance(lo, tuple)
    closed1 = isinstance(hi, tuple)
    if closed0:
        lo = None
    if closed1:
        hi = None
    for f in facts:
        if f[0] == 'zero':
            continue
        Q, l, h = f
        if tuple(sorted(Q.items())) == key:
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
    if integral:
        lo = None if lo is None else Fraction(math.floor(lo))
        hi = None if hi is None else Fraction(math.ceil(hi))
    ths = sorted(t for t in ths if (lo is None or t > lo) and (hi is None or t < hi))
    name = show_poly(P)
    regs = []
    prev = lo
    for th in ths:
        regs.append(('open', prev, th))
        regs.append(('pt', th, th))
        prev = th
    regs.append(('open', prev, hi))
    for kind, l, h in regs:
        if kind == 'pt':
            if closed0 and l < 0 or closed1 and l > 0:
                continue
            if integral and l.denominator != 1:
                continue
            yield _point(P, key, l, name)
        else:
            if closed0 and h is not None and h <= 0:
                continue
            if closed1 and l is not None and l >= 0:
                continue
            if integral:
                l2 = None if l is None else Fraction(math.floor(l))
                h2 = None if h is None else Fraction(math.ceil(h))
                if l2 is not None and h2 is not None:
                    if h2 - l2 <= 1:
                        continue
                    if h2 - l2 == 2:
                        yield _point(P, key, l2 + 1, name)
                        continue
            yield ('%s in (%s,%s)' % (name, l, h), {'kind': 'reg', 'key': key, 'P': P, 'lo': l, 'hi': h})


def _point(P, key, v, name):
    d = {'kind': 'pt', 'key': key, 'P': P, 'val': v}
    # solve for an atom occurring linearly with a constant coefficient
    for m, co in sorted(P.items(), reverse=True):
        if len(m) == 1 and m[0][1] == 1 and all(m[0][0] not in dict(mm) for mm in P if mm != m):
            rest = {mm: -vv / co for mm, vv in P.items() if mm != m}
            if v:
                rest[()] = v / co
            val = poly_term(rest)
            if any(_occurs(m[0][0], ATOMS[a2]) for mm in rest for a2, _ in mm):
                continue
            if integral_poly(P) and any(x.denominator != 1 for x in rest.values()):
                continue
            d['solve'] = (m[0][0], val)
            break
    return ('%s = %s' % (name, v), d)


def _occurs(aid, t, seen=None):
    if seen is None:
        seen = set()
    if t.id in seen:
        return False
    seen.add(t.id)
    if _atom_of.get(t.id) == aid:
        return True
    return any(_occurs(aid, a, seen) for a in _targs(t.args))


def _mono_nn(m):
    for a, e in m:
        t = ATOMS[a]
        if e % 2 and not (t.attr and t.attr.get('nn')):
            return False
    return True


def poly_term(p):
    r = ZERO
    for m, c in p.items():
        t = const(c)
        for a, e in m:
            for _ in range(e):
                t = mul(t, ATOMS[a])
        r = add(r, t)
    return r


def rewrite_case(t, d):
    k = d['kind']
    if k == 'term':
        return rewrite(t, lambda x: d['val'] if x.id == d['id'] else None)
    if k == 'opq':
        return _rw_gates(t, d['aid'], d['val'])
    key = d['key']
    if k == 'reg':
        lo, hi = d['lo'], d['hi']

        def f(x):
            if x.op in ('lt', 'eq'):
                kk = cond_key(x)
                if kk[0] == 'cmp' and kk[1] == key:
                    th, test = kk[3], kk[4]
                    if lo is not None and th <= lo:
                        return const(test[1])
                    if hi is not None and th >= hi:
                        return const(test[-1])
                if kk[0] == 'const':
                    return const(kk[1])
            return None
        return rewrite(t, f)
    v = d['val']

    def f(x):
        if x.op in ('lt', 'eq'):
            kk = cond_key(x)
            if kk[0] == 'cmp' and kk[1] == key:
                s = v - kk[3]
                return const(kk[4][1 if s > 0 else (-1 if s < 0 else 0)])
            if kk[0] == 'const':
                return const(kk[1])
        return None
    t = rewrite(t, f)
    if 'solve' in d:
        aid, val = d['solve']
        t = rewrite(t, lambda x: val if _is_atom(x, aid) else None)
    return t


def _atom_lookup(x):
    r = _atom_of.get(x.id)
    if r is None:
        r = atom(x)
    return r


def _rw_gates(t, aid, val):
    """replace an opaque condition where it is used as a boolean"""
    def f(x):
        if x.op in ('+', '*', 'neg', '/', 'c', 'ite', 'and', 'or', 'not', 'true', 'false', 'lt'):
            return None
        if _atom_lookup(x) == aid:
            return val
        return None
    return rewrite(t, f)


# ---------------------------------------------------------------- dependency queries
def deps(t, acc=None, seen=None):
    """all sym leaves of t"""
    if acc is None:
        acc = set()
        seen = set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == 'sym':
        acc.add(t)
    for a in _targs(t.args):
        deps(a, acc, seen)
    return acc


def contains(t, pred, seen=None):
    if seen is None:
        seen = set()
    if t.id in seen:
        return False
    seen.add(t.id)
    if pred(t):
        return True
    return any(contains(a, pred, seen) for a in _targs(t.args))


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    if t.id in seen:
        return seen
    seen[t.id] = t
    for a in _targs(t.args):
        subterms(a, seen)
    return seen


def subst(t, mapping):
    """mapping: term -> term"""
    ids = {k.id: v for k, v in mapping.items()}
    return rewrite(t, lambda x: ids.get(x.id))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 12:
        return '...'
    o, a = t.op, t.args
    d = depth + 1
    if o == 'c':
        return str(a[0])
    if o == 'sym':
        return '.'.join(str(x) for x in a)
    if o == '+':
        if a[1].op == 'neg':
            return '(%s - %s)' % (show(a[0], d), show(a[1].args[0], d))
        return '(%s + %s)' % (show(a[0], d), show(a[1], d))
    if o == '*':
        return '%s*%s' % (show(a[0], d), show(a[1], d))
    if o == '/':
        return '(%s / %s)' % (show(a[0], d), show(a[1], d))
    if o == 'neg':
        return '-%s' % show(a[0], d)
    if o == 'ite':
        return '(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == 'lt':
        return '%s < %s' % (show(a[0], d), show(a[1], d))
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'not':
        return '!(%s)' % show(a[0], d)
    if o in ('and', 'or'):
        return '(%s %s %s)' % (show(a[0], d), o, show(a[1], d))
    if o == 'sel':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'fn':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if o == 'arg':
        return '%s' % (a[1],) if a[0].op == 'sym' else '%s[%s]' % (show(a[0], d), a[1])
    if o == 'x':
        return 'extract<%s>' % (a[0],)
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


def show_poly(p):
    return show(poly_term(p))
