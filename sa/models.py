"""Library models: the standard and Boost functions whose bodies are not analysed."""
from terms import *
import terms as TM
from prog import *
import interp as I

MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def V(it, a):
    """value of an argument passed by reference or by value"""
    return it.read(a.loc) if isinstance(a, I.Ref) else a


def VT(it, a):
    return num(it.term(V(it, a)))


def ret(it, f, v):
    if is_ref(it.p.types[f['ret']]):
        return I.Ref(it.root(v))
    return v


# ---------------------------------------------------------------- scalars
def unary(name, integral=False, nn=False):
    def h(it, f, obj, args, e):
        if f.get('scope'):
            return NotImplemented
        x = VT(it, args[0])
        r = fn(name, x)
        a = {'num': True}
        if integral:
            if x.op == 'c':
                import math
                return const(getattr(math, name)(x.args[0]))
            if x.attr and x.attr.get('int'):
                return x
            a['int'] = True
        if nn:
            a['nn'] = True
        r.attr = a
        return r
    return h


for n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'atan', 'log1p', 'expm1', 'cbrt', 'asin', 'acos', 'tanh'):
    MODELS['std::' + n] = MODELS[n] = unary(n)
for n in ('ceil', 'floor', 'round', 'trunc', 'rint', 'nearbyint'):
    MODELS['std::' + n] = MODELS[n] = unary(n, True)


@model('sqrt', 'std::sqrt', 'sqrtf', 'sqrtl')
def m_sqrt(it, f, obj, args, e):
    x = VT(it, args[0])
    if x in (ZERO, ONE):
        return x
    r = fn('sqrt', x)
    r.attr = {'num': True, 'nn': True}
    return r


@model('abs', 'std::abs', 'fabs', 'std::fabs', 'labs')
def m_abs(it, f, obj, args, e):
    x = VT(it, args[0])
    return ite(lt(x, ZERO), neg(x), x)


def power(b, x):
    if x.op == 'c' and x.args[0].denominator == 1 and abs(x.args[0]) <= 12:
        k = int(x.args[0])
        r = ONE
        for _ in range(abs(k)):
            r = mul(r, b)
        return r if k >= 0 else div(ONE, r)
    if x.op == 'c' and x.args[0].denominator == 2 and abs(x.args[0]) < 12:
        k = x.args[0]
        s = fn('sqrt', b)
        s.attr = {'num': True, 'nn': True}
        r = ONE
        for _ in range(int(abs(k))):
            r = mul(r, b)
        r = mul(r, s)
        return r if k > 0 else div(ONE, r)
    r = fn('pow', b, x)
    r.attr = {'num': True}
    return r


@model('pow', 'std::pow')
def m_pow(it, f, obj, args, e):
    return power(VT(it, args[0]), VT(it, args[1]))


@model('std::isnan', 'isnan', 'std::isinf', 'std::isfinite')
def m_isnan(it, f, obj, args, e):
    r = fn(f['name'], VT(it, args[0]))
    r.attr = {'bool': True}
    return r


@model('std::min')
def m_min(it, f, obj, args, e):
    a, b = VT(it, args[0]), VT(it, args[1])
    c = lt(b, a) if len(args) == 2 else truth(it.term(callfun(it, args[2], [args[1], args[0]])))
    return ret(it, f, ite(c, b, a))


@model('std::max')
def m_max(it, f, obj, args, e):
    a, b = VT(it, args[0]), VT(it, args[1])
    c = lt(a, b) if len(args) == 2 else truth(it.term(callfun(it, args[2], [args[0], args[1]])))
    return ret(it, f, ite(c, b, a))


def callfun(it, fo, args):
    v = V(it, fo)
    if isinstance(v, I.Fn):
        r = it.apply(it.p.functions[v.id], None, args)
    else:
        t = it.term(v)
        return fn('call', t, *[it.term(V(it, a)) for a in args])
    return V(it, r)


@model('boost::numeric_cast')
def m_numcast(it, f, obj, args, e):
    src = strip(it.p.types[f['params'][0][2]])
    return it.convert(VT(it, args[0]), src, it.p.tstrip(f['ret']))


@model('std::swap', 'std::iter_swap')
def m_swap(it, f, obj, args, e):
    la, lb = args[0].loc, args[1].loc
    a, b = it.read(la), it.read(lb)
    it.write(la, b)
    it.write(lb, a)
    return UNDEF


def m_limits(it, f, obj, args, e):
    t = it.p.types[f['rt']]
    ty = split_targs(t)[1][0]
    nm = f['name']
    if ty in INTS and nm in ('min', 'max', 'lowest'):
        w = WIDTH[ty]
        if ty.startswith('unsigned'):
            return const(0) if nm != 'max' else const(2 ** w - 1)
        return const(2 ** (w - 1) - 1) if nm == 'max' else const(-2 ** (w - 1))
    if nm == 'lowest' and ty in FLOATS:
        return neg(limit(ty, 'max'))
    if ty in INTS and nm in ('quiet_NaN', 'infinity', 'epsilon'):
        return ZERO
    return limit(ty, nm)


def limit(ty, nm):
    r = sym('limits', ty, nm)
    r.attr = {'num': True}
    if nm in ('max', 'min', 'epsilon', 'infinity') and ty in FLOATS:
        r.attr['nn'] = True
    return r


PREFIX.append(('std::numeric_limits::', m_limits))


@model('std::forward', 'std::move', 'std::addressof', 'boost::addressof', 'boost::core::addressof', 'boost::move', 'boost::forward')
def m_forward(it, f, obj, args, e):
    return args[0]


@model('boost::ref', 'boost::cref')
def m_ref(it, f, obj, args, e):
    return NotImplemented


@model('boost::throw_exception')
def m_throw(it, f, obj, args, e):
    it.do_throw(strip(it.p.types[f['params'][0][2]]))
    return UNDEF


@model('__assert_fail', 'boost::assertion_failed', 'boost::assertion_failed_msg', 'abort', 'std::abort', 'std::terminate')
def m_assert(it, f, obj, args, e):
    it.do_throw('assertion')
    return UNDEF


# ---------------------------------------------------------------- strings and streams: irrelevant values
def m_str(it, f, obj, args, e):
    r = sym('text')
    if is_ref(it.p.types[f['ret']]):
        if f['name'] == 'operator<<':
            return args[0] if args and isinstance(args[0], I.Ref) else I.Ref(it.root(r))
        return I.Ref(it.root(r))
    return r


for n in ('std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_string', 'std::runtime_error', 'std::operator<<', 'std::basic_ostream', 'std::logic_error', 'std::invalid_argument', 'std::domain_error', 'std::out_of_range', 'std::range_error'):
    PREFIX.append((n, m_str))
    MODELS['ctor:' + n + '::' + n.split('::')[-1]] = lambda it, f, obj, args, e: sym('text')
MODELS['ctor:std::allocator::allocator'] = lambda it, f, obj, args, e: sym('allocator')
MODELS['std::allocator::allocator'] = MODELS['ctor:std::allocator::allocator']


# ---------------------------------------------------------------- containers
def const_size(t):
    if t.startswith(('boost::array<', 'std::array<')):
        return int(split_targs(t)[1][1].rstrip('UL'))
    return None


def ctor_container(it, f, obj, args, e):
    t = it.p.types[f['rt']]
    ps = [it.p.types[x[2]] for x in f['params'][:len(args)]]
    el = split_targs(t)[1][0]
    n = const_size(t)
    if n is not None:
        if args and (f.get('copy') or f.get('move')):
            return it.term(V(it, args[0]))
        return mk('uninit', short(t))
    a = [V(it, x) for x in args]
    if t.startswith('boost::circular_buffer<'):
        if f.get('copy') or f.get('move'):
            return it.term(a[0])
        a = [x for x in a if not (isinstance(x, T) and x.op == 'sym' and x.args[0] == 'allocator')]
        if not a:
            return mk('cbnew', ZERO)
        if len(a) == 1:
            return mk('cbnew', num(it.term(a[0])))
        if len(a) == 2 and not isinstance(a[0], I.It):
            return fn('cbfill', num(it.term(a[0])), it.term(a[1]))
        return fn('cbrange', *[it.term(x) for x in a])
    a = [x for x in a if not (isinstance(x, T) and x.op == 'sym' and x.args[0] == 'allocator')]
    if f.get('copy') or f.get('move'):
        return it.term(a[0])
    if not a:
        return mk('empty')
    if t.startswith('std::valarray<'):
        if len(a) == 1 and strip(ps[0]) in INTS:
            return mk('vecfill', num(it.term(a[0])), ZERO)
        if len(a) == 2 and strip(ps[1]) in INTS and strip(ps[0]) not in INTS or len(a) == 2:
            return mk('vecfill', num(it.term(a[1])), it.term(a[0]))
        return it.term(a[0])
    if isinstance(a[0], I.It):
        return rng(it, a[0], a[1])
    if isinstance(a[0], I.Obj):
        return fn('range', it.term(a[0]), it.term(a[1]))
    if len(a) == 1:
        if strip(ps[0]) in INTS:
            return mk('vecfill', num(it.term(a[0])), zero_el(it, el))
        return it.term(a[0])
    return mk('vecfill', num(it.term(a[0])), it.term(a[1]))


def zero_el(it, el):
    if el in INTS or el in FLOATS:
        return ZERO if el != 'bool' else FALSE
    if el.startswith('std::vector<'):
        return mk('empty')
    rid = it.p.rec_of_str(el)
    if rid is not None:
        o = I.Obj(rid)
        for r, n, fti, m in it.p.flat_fields(rid):
            o.f[(r, n)] = it.zero(fti)
        return it.term(o)
    return mk('zero', short(el))


MODELS['ctor:container'] = ctor_container


def rng(it, a, b):
    c = it.term(it.read(a.loc))
    if a.off is ZERO and plain_equal(b.off, size_of(c)):
        return c
    return mk('slice', c, a.off, b.off)


def ctor_iterator(it, f, obj, args, e):
    if not args:
        return UNDEF
    return V(it, args[0])


MODELS['ctor:iterator'] = ctor_iterator


def vec(it, f, obj, args, e):
    t = it.p.types[f['rt']]
    n = f['name']
    c = it.read(obj)
    if not isinstance(c, T):
        raise I.Unsupported('container value %r' % (c,))
    cs = const_size(t)

    def size():
        return const(cs) if cs is not None else size_of(c)
    if n == 'operator[]' or n == 'at':
        i = VT(it, args[0])
        it.access(obj, i)
        return I.Ref((obj[0], obj[1] + (('i', i),)))
    if n in ('begin', 'cbegin', 'data'):
        return I.It(obj, ZERO)
    if n in ('end', 'cend'):
        return I.It(obj, size())
    if n in ('rbegin', 'rend', 'crbegin', 'crend'):
        return fn('rev', it.term(I.It(obj, size() if 'begin' in n else ZERO)))
    if n == 'size':
        return size()
    if n == 'empty':
        return eq(size(), ZERO)
    if n == 'back':
        it.access(obj, sub(size(), ONE))
        return I.Ref((obj[0], obj[1] + (('i', sub(size(), ONE)),)))
    if n == 'front':
        it.access(obj, ZERO)
        return I.Ref((obj[0], obj[1] + (('i', ZERO),)))
    if n in ('fill', 'assign') and cs is not None:
        v = it.term(V(it, args[0]))
        for k in range(cs):
            c = store(c, const(k), v)
        it.write(obj, c)
        return UNDEF
    if n == 'operator=' or n == 'assign' and len(args) == 1:
        it.write(obj, it.term(V(it, args[0])))
        return I.Ref(obj)
    if n == 'swap':
        o = args[0].loc
        d = it.read(o)
        it.write(o, c)
        it.write(obj, d)
        return UNDEF
    if n == 'reserve' or n == 'shrink_to_fit':
        return UNDEF
    if n == 'capacity' and not t.startswith('boost::circular_buffer'):
        r = fn('vcap', c)
        r.attr = {'int': True, 'nn': True}
        return r
    cb = t.startswith('boost::circular_buffer')
    if n in ('push_back', 'emplace_back'):
        v = it.term(V(it, args[0]))
        it.write(obj, mk('cbpush' if cb else 'push', c, v))
        if n == 'emplace_back' and is_ref(it.p.types[f['ret']]):
            return I.Ref((obj[0], obj[1] + (('i', size_of(c)),)))
        return UNDEF
    if n == 'clear':
        it.write(obj, mk('cbclear', c) if cb else mk('empty'))
        return UNDEF
    if n == 'resize':
        a = [it.term(V(it, x)) for x in args]
        sz = num(a[0])
        fill = a[1] if len(a) > 1 else zero_el(it, split_targs(t)[1][0])
        if c.op == 'empty':
            it.write(obj, mk('vecfill', sz, fill))
        else:
            it.write(obj, mk('resized', sz, c, fill))
        return UNDEF
    if n == 'assign' and len(args) == 2:
        a, b = V(it, args[0]), V(it, args[1])
        if isinstance(a, I.It):
            it.write(obj, rng(it, a, b))
        elif isinstance(a, T):
            it.write(obj, mk('vecfill', num(a), it.term(b)))
        else:
            it.write(obj, fn('range', it.term(a), it.term(b)))
        return UNDEF
    if cb:
        if n == 'full':
            return eq(size_of(c), cap_of(c))
        if n == 'capacity':
            return cap_of(c)
        if n in ('set_capacity', 'rset_capacity'):
            it.write(obj, mk('cbsetcap', c, VT(it, args[0])))
            return UNDEF
        if n == 'reserve':
            return sub(cap_of(c), size_of(c))
    it.note(f)
    ts = [it.term(V(it, x)) for x in args]
    if not f.get('const'):
        it.write(obj, fn('havoc:' + f['q'], c, *ts))
    r = fn(f['q'], c, *ts)
    return ret(it, f, r)


def container_prefix(it, f, obj, args, e):
    if obj is None:
        return NotImplemented
    return vec(it, f, obj, args, e)


for n in ('std::vector::', 'boost::circular_buffer::', 'boost::array::', 'std::array::', 'std::valarray::'):
    PREFIX.append((n, container_prefix))


# ---------------------------------------------------------------- valarray arithmetic
TM.ZIP.update({'+': add, '-': sub, '*': mul, '/': div, 'i/': lambda a, b: I.idiv(a, b)})


def is_valarray(t):
    return strip(t).startswith(('std::valarray<', 'std::_Expr<'))


def val_el(t):
    return split_targs(strip(t))[1][-1]


def m_valop(it, f, obj, args, e):
    ps = [it.p.types[x[2]] for x in f['params']]
    op = f['name'][8:]
    if obj is not None:
        if op[:-1] not in ('+', '-', '*', '/') or op[-1:] != '=' or len(args) != 1:
            return NotImplemented
        t = it.p.types[f['rt']]
        if op == '/=' and strip(val_el(t)) in INTS:
            op = 'i/='
        it.write(obj, mk('zip', op[:-1], True, is_valarray(ps[0]), it.term(it.read(obj)), VT(it, args[0])))
        return I.Ref(obj)
    if len(ps) != 2 or op not in ('+', '-', '*', '/') or not any(is_valarray(x) for x in ps):
        return NotImplemented
    if op == '/' and strip(val_el(next(x for x in ps if is_valarray(x)))) in INTS:
        op = 'i/'
    return mk('zip', op, is_valarray(ps[0]), is_valarray(ps[1]), VT(it, args[0]), VT(it, args[1]))


for n in '+-*/':
    MODELS['std::operator' + n] = m_valop
    MODELS['std::valarray::operator' + n + '='] = m_valop


def m_expr(it, f, obj, args, e):
    if obj is None:
        return NotImplemented
    c = it.term(it.read(obj))
    if f['name'] == 'size':
        return size_of(c)
    if f['name'] == 'operator[]' and len(args) == 1:
        return select(c, VT(it, args[0]))
    return NotImplemented


PREFIX.append(('std::_Expr::', m_expr))


# ---------------------------------------------------------------- iterators
def iter_method(it, f, obj, args, e):
    n = f['name']
    if obj is None:
        return NotImplemented
    if n == 'operator=' and len(args) == 1:
        it.write(obj, V(it, args[0]))
        return I.Ref(obj)
    v = it.read(obj)
    if not isinstance(v, I.It):
        t = it.term(v)
        if n in ('operator*', 'operator[]', 'operator->'):
            return I.Ref(it.root(mk('deref', t, *[VT(it, a) for a in args])))
        if n in ('operator++', 'operator--'):
            it.write(obj, fn(n, t))
            return I.Ref(obj) if is_ref(it.p.types[f['ret']]) else t
        if n in ('operator+', 'operator-', 'operator==', 'operator!='):
            a = V(it, args[0])
            if n == 'operator==' or n == 'operator!=':
                r = eq(t, it.term(a))
                return r if n == 'operator==' else not_(r)
            return fn(n, t, it.term(a))
        if n == 'base':
            return I.Ref(obj)
        if n in ('operator+=', 'operator-='):
            it.write(obj, fn(n, t, VT(it, args[0])))
            return I.Ref(obj)
        return NotImplemented
    if n == 'operator*':
        return I.Ref(it.deref(v))
    if n == 'operator->':
        l = it.deref(v)
        return I.Ref(l)
    if n == 'operator[]':
        o = add(v.off, VT(it, args[0]))
        return I.Ref(it.deref(I.It(v.loc, o)))
    if n in ('operator++', 'operator--'):
        d = ONE if n == 'operator++' else const(-1)
        it.write(obj, I.It(v.loc, add(v.off, d)))
        return I.Ref(obj) if is_ref(it.p.types[f['ret']]) else v
    if n in ('operator+=', 'operator-='):
        d = VT(it, args[0])
        it.write(obj, I.It(v.loc, add(v.off, d if n == 'operator+=' else neg(d))))
        return I.Ref(obj)
    if n == 'base':
        return I.Ref(obj)
    if n in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        return it.itop(n[8:], v, V(it, args[0]))
    if n == 'operator=':
        it.write(obj, V(it, args[0]))
        return I.Ref(obj)
    return NotImplemented


PREFIX.append(('__gnu_cxx::__normal_iterator::', iter_method))
PREFIX.append(('boost::cb_details::iterator::', iter_method))


@model('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator-', '__gnu_cxx::operator<', '__gnu_cxx::operator>', '__gnu_cxx::operator<=', '__gnu_cxx::operator>=', '__gnu_cxx::operator+')
def m_iterop(it, f, obj, args, e):
    a, b = V(it, args[0]), V(it, args[1])
    return it.binop(f['name'][8:], a, b, f['ret'])


@model('std::distance', 'boost::distance')
def m_distance(it, f, obj, args, e):
    a, b = V(it, args[0]), V(it, args[1]) if len(args) > 1 else None
    if isinstance(a, I.It) and isinstance(b, I.It):
        return it.itop('-', b, a)
    if isinstance(a, I.Obj) and 'body' in f:
        return NotImplemented
    return distance_obj(it, a, b)


def inner(it, v):
    """offset of the innermost iterator of an adaptor object, with its direction"""
    if isinstance(v, I.It):
        return v
    if isinstance(v, I.Obj):
        r = None
        for rid, name, ti, mut in it.p.flat_fields(v.rid):
            if name in ('m_iterator', 'current', 'm_order', 'iter', 'm_base'):
                x = inner(it, it.child(v, ('f', rid, name)))
                if x is not None:
                    r = x
                    break
        return r
    return None


def distance_obj(it, a, b):
    x, y = inner(it, a), inner(it, b)
    if x is not None and y is not None:
        d = it.itop('-', y, x)
        t = it.p.types[it.p.records[a.rid]['type']]
        if 'reverse_iterator' in t.split('<')[0]:
            d = neg(d)
        return d
    r = fn('distance', it.term(a), it.term(b))
    r.attr = {'int': True}
    return r


@model('std::advance', 'boost::iterators::advance_adl_barrier::advance')
def m_advance(it, f, obj, args, e):
    l = args[0].loc
    v = it.read(l)
    d = VT(it, args[1])
    if isinstance(v, I.It):
        it.write(l, I.It(v.loc, add(v.off, d)))
        return UNDEF
    if isinstance(v, I.Obj):
        rev = [1]

        def go(o):
            for rid, name, ti, mut in it.p.flat_fields(o.rid):
                if name in ('m_iterator', 'current', 'm_order', 'iter', 'm_base'):
                    x = it.child(o, ('f', rid, name))
                    s = -1 if 'reverse_iterator' in it.p.types[it.p.records[o.rid]['type']].split('<')[0] else 1
                    rev[0] *= s
                    if isinstance(x, I.It):
                        n = I.It(x.loc, add(x.off, d if rev[0] > 0 else neg(d)))
                    elif isinstance(x, I.Obj):
                        n = go(x)
                    else:
                        return o
                    ff = dict(o.f)
                    ff[(rid, name)] = n
                    return I.Obj(o.rid, ff, o.base)
            return o
        it.write(l, go(v))
        return UNDEF
    it.write(l, fn('advance', it.term(v), d))
    return UNDEF


@model('std::next', 'std::prev', 'boost::next', 'boost::prior', 'boost::next_prior::next')
def m_next(it, f, obj, args, e):
    v = V(it, args[0])
    d = VT(it, args[1]) if len(args) > 1 else ONE
    if f['name'] in ('prev', 'prior'):
        d = neg(d)
    if isinstance(v, I.It):
        return I.It(v.loc, add(v.off, d))
    if isinstance(v, T):
        return add(num(v), d) if v.attr and (v.attr.get('int') or v.attr.get('num')) else fn('advance', v, d)
    return NotImplemented


# ---------------------------------------------------------------- algorithms
def cmpterm(it, a):
    v = V(it, a)
    return functor(it, v)


def functor(it, v):
    if isinstance(v, I.Lam):
        return mk('lambda', tuple(v.fns))
    if isinstance(v, I.Fn):
        return mk('fnptr', it.p.functions[v.id]['q'])
    if isinstance(v, I.Obj):
        fl = []
        for rid, name, ti, mut in it.p.flat_fields(v.rid):
            x = it.child(v, ('f', rid, name))
            if isinstance(x, I.Ref):
                x = it.read(x.loc)
            fl.append(functor(it, x) if isinstance(x, (I.Obj, I.Fn, I.Lam)) else it.term(x))
        return mk('functor', short(it.p.types[it.p.records[v.rid]['type']]), tuple(fl))
    return it.term(v)


def comparator(it, a, n=2):
    """a comparison object as a function of formal arguments"""
    v = V(it, a)
    fs = [mk('formal', k) for k in range(n)]
    if isinstance(v, I.Obj):
        t = short(it.p.types[it.p.records[v.rid]['type']])
        if t.startswith('less<') and n == 2:
            return mk('cmp', lt(fs[0], fs[1]))
        if t.startswith('greater<') and n == 2:
            return mk('cmp', lt(fs[1], fs[0]))
        c = [f for f in it.p.functions.values() if f['name'] == 'operator()' and f.get('rec') == v.rid and 'body' in f and len(f['params']) == n]
    elif isinstance(v, I.Lam):
        c = [it.p.functions[i] for i in v.fns]
    elif isinstance(v, I.Fn):
        c = [it.p.functions[v.id]]
    else:
        c = []
    c = [f for f in c if 'body' in f]
    if len(c) != 1:
        return functor(it, v)
    f = c[0]
    for x, pr in zip(fs, f['params']):
        ty = it.p.tstrip(pr[2])
        if ty in INTS:
            x.attr = {'int': True, 'nn': ty.startswith('unsigned')}
        elif ty in FLOATS:
            x.attr = {'num': True}
    av = [I.Ref(it.root(x)) if is_ref(it.p.types[pr[2]]) else x for x, pr in zip(fs, f['params'])]
    tr, it.track = it.track, False
    if isinstance(v, I.Lam):
        r = it.call_lambda(v, f, av)
    elif isinstance(v, I.Fn):
        r = it.invoke(f, None, av)
    else:
        r = it.invoke(f, a.loc if isinstance(a, I.Ref) else it.root(v), av)
    it.track = tr
    return mk('cmp', truth(it.term(V(it, r))))


def inplace(name):
    def h(it, f, obj, args, e):
        a, b = V(it, args[0]), V(it, args[1])
        if not isinstance(a, I.It):
            raise I.Unsupported(name + ' over adaptor')
        c = it.term(it.read(a.loc))
        rest = [comparator(it, x) for x in args[2:]]
        it.events.append(('algo', name, a.loc, a.off, b.off, rest, list(it.pc), it.where()))
        it.write(a.loc, fn(name, c, a.off, b.off, *rest))
        return UNDEF
    return h


for n in ('sort', 'sort_heap', 'push_heap', 'pop_heap', 'make_heap', 'reverse', 'stable_sort'):
    MODELS['std::' + n] = inplace(n)


@model('std::fill')
def m_fill(it, f, obj, args, e):
    a, b = V(it, args[0]), V(it, args[1])
    v = it.term(V(it, args[2]))
    if not isinstance(a, I.It):
        raise I.Unsupported('fill')
    c = it.term(it.read(a.loc))
    n = poly_const(sub(b.off, a.off))
    if n is not None and n < 64 and a.off.op == 'c':
        for k in range(int(n)):
            c = store(c, add(a.off, const(k)), v)
    elif a.off is ZERO and plain_equal(b.off, size_of(c)):
        c = mk('vecfill', size_of(c), v)
    else:
        c = fn('fill', c, a.off, b.off, v)
    it.write(a.loc, c)
    return UNDEF


def search(name):
    def h(it, f, obj, args, e):
        a, b = V(it, args[0]), V(it, args[1])
        if not isinstance(a, I.It):
            return NotImplemented
        c = it.term(it.read(a.loc))
        n = poly_const(sub(b.off, a.off))
        if name in ('find_if', 'partition_point'):
            rest = [comparator(it, args[2], 1)]
        elif name in ('min_element', 'max_element'):
            rest = [comparator(it, x) for x in args[2:]]
        else:
            rest = [it.term(V(it, args[2]))] + [comparator(it, x) for x in args[3:]]
        if n is not None and a.off.op == 'c' and n <= 16 and len(args) == 3 and name in ('lower_bound', 'upper_bound'):
            v = rest[0]
            r = b.off
            for k in range(int(n) - 1, -1, -1):
                i = add(a.off, const(k))
                x = select(c, i)
                # sorted range: first position whose element is not less / greater
                r = ite(not_(lt(x, v)) if name == 'lower_bound' else lt(v, x), i, r)
            return I.It(a.loc, r)
        r = fn(name, c, a.off, b.off, *rest)
        r.attr = {'int': True, 'nn': True}
        return I.It(a.loc, r)
    return h


for n in ('lower_bound', 'upper_bound', 'min_element', 'max_element', 'find', 'find_if', 'partition_point'):
    MODELS['std::' + n] = search(n)


def affine_view(t):
    """container, scale, offset of the elements (and value of the counter) a (nested) index iterator runs over, or None"""
    def st(x):
        return dict(x.args[1]) if isinstance(x, T) and x.op == 'struct' else None

    def ints(x):
        # value of an iterator over integers as (scale of the step, start)
        d = st(x)
        if d is None:
            return (ONE, x, x) if isinstance(x, T) and x.op not in ('it', 'fn') else None
        if 'counting_iterator' in str(x.args[0]).split('<')[0] and set(d) == {'m_iterator'}:
            return ints(d['m_iterator'])
        if 'transform_iterator' in str(x.args[0]).split('<')[0] and set(d) == {'m_iterator', 'm_f'}:
            g = st(d['m_f'])
            r = ints(d['m_iterator'])
            if g is None or r is None or 'value' not in g or not str(d['m_f'].args[0]).startswith(('binder1st<multiplies', 'std::binder1st<std::multiplies', 'boost::binder1st<std::multiplies')):
                return None
            return mul(g['value'], r[0]), mul(g['value'], r[1]), r[2]
        return None
    d = st(t)
    while d is not None and set(d) == {'m_iterator'}:
        d = st(d['m_iterator'])
    if d is None or set(d) != {'m_iterator', 'm_elt_iter'}:
        return None
    e = d['m_elt_iter']
    r = ints(d['m_iterator'])
    if r is None or e.op != 'it':
        return None
    return e.args[0], r[0], add(e.args[1], r[1]), r[2]


@model('std::copy')
def m_copy(it, f, obj, args, e):
    a, b, o = [V(it, x) for x in args[:3]]
    if isinstance(a, I.It) and isinstance(o, I.It):
        c = it.term(it.read(a.loc))
        d = it.term(it.read(o.loc))
        n = sub(b.off, a.off)
        k = poly_const(n)
        if k is not None and k <= 64:
            for q in range(int(k)):
                d = store(d, add(o.off, const(q)), select(c, add(a.off, const(q))))
            it.write(o.loc, d)
        elif a.off is ZERO and o.off is ZERO and plain_equal(n, size_of(c)) and (plain_equal(size_of(d), n)):
            it.write(o.loc, c)
        else:
            it.write(o.loc, fn('copied', d, o.off, c, a.off, b.off))
        it.events.append(('copy', o.loc, o.off, n, list(it.pc), it.where()))
        return I.It(o.loc, add(o.off, n))
    if isinstance(o, I.It):
        d = it.term(it.read(o.loc))
        n = distance_obj(it, a, b)
        ta = it.term(a)
        v, u = affine_view(ta), affine_view(it.term(b))
        if v is not None and u is not None and v[0] is u[0] and v[1] is u[1]:
            n = sub(u[3], v[3])
        if v is not None and o.off is ZERO and plain_equal(size_of(d), n):
            it.write(o.loc, mk('tab', n, *v[:3]))
        else:
            it.write(o.loc, fn('copied', d, o.off, ta, it.term(b)))
        return I.It(o.loc, add(o.off, n))
    raise I.Unsupported('copy')


@model('std::make_pair')
def m_make_pair(it, f, obj, args, e):
    rid = it.p.rec_of(f['ret'])
    if rid is None:
        return mk('struct', 'pair', (('first', it.term(V(it, args[0]))), ('second', it.term(V(it, args[1])))))
    fl = it.p.flat_fields(rid)
    o = I.Obj(rid)
    for (r, n, ti, m), a in zip(fl, args):
        o.f[(r, n)] = V(it, a)
    return o


@model('std::pair::operator=')
def m_pair_assign(it, f, obj, args, e):
    it.write(obj, V(it, args[0]))
    return I.Ref(obj)


@model('boost::detail::numeric_distance')
def m_numdist(it, f, obj, args, e):
    return sub(VT(it, args[1]), VT(it, args[0]))


@model('std::bind1st', 'std::bind2nd')
def m_bind(it, f, obj, args, e):
    rid = it.p.rec_of(f['ret'])
    o = I.Obj(rid)
    fl = it.p.flat_fields(rid)
    for (r, n, ti, m), a in zip(fl, args):
        o.f[(r, n)] = V(it, a)
    return o


# ---------------------------------------------------------------- archives (witness/common.hpp)
@model('sa_oarchive::operator&', 'sa_oarchive::operator<<')
def m_save(it, f, obj, args, e):
    l = args[0].loc
    it.events.append(('save', l, it.read(l), strip(it.p.types[f['params'][0][2]]), list(it.pc), it.where()))
    return I.Ref(obj)


@model('sa_iarchive::operator&', 'sa_iarchive::operator>>')
def m_load(it, f, obj, args, e):
    l = args[0].loc
    k = sum(1 for x in it.events if x[0] == 'load')
    ty = f['params'][0][2]
    q = getattr(it, 'tape', None)
    v = None
    if q is not None:
        v = q(it, k, l, strip(it.p.types[ty]))
    if v is None:
        v = it.fresh(('loaded', str(k)), ty)
    it.events.append(('load', l, v, strip(it.p.types[ty]), list(it.pc), it.where()))
    it.write(l, v)
    return I.Ref(obj)
