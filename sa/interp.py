"""Gated value numbering of resolved C++ functions.

Every function body reachable from an entry point is evaluated once over value numbers
(sa/terms.py); joins are gates (ite), loops become fixpoint terms (mu) over the locations they
carry, calls are inlined when the resolved program contains the callee's body and are library
models or uninterpreted functions otherwise."""
import sys
from fractions import Fraction
from decimal import Decimal
from terms import *
import terms as TM
from prog import *

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('rid', 'f', 'base')

    def __init__(self, rid, f=None, base=None):
        self.rid = rid
        self.f = f if f is not None else {}
        self.base = base

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.rid, {k[1]: v for k, v in self.f.items()})


class Ref:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Ref%s' % (self.loc,)


class It:
    __slots__ = ('loc', 'off')

    def __init__(self, loc, off):
        self.loc = loc
        self.off = off

    def __repr__(self):
        return 'It(%s,%s)' % (self.loc, show(self.off))


class Fn:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i


class Lam:
    __slots__ = ('fns', 'env', 'this')

    def __init__(self, fns, env, this):
        self.fns = fns
        self.env = env
        self.this = this


class Frame:
    __slots__ = ('env', 'this', 'fn', 'pending')

    def __init__(self, env, this, fn):
        self.env = env
        self.this = this
        self.fn = fn
        self.pending = []


def loc_eq(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(_pe(x, y) for x, y in zip(a[1], b[1]))


def _pe(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'f':
        return x == y
    return x[1] is y[1] or plain_equal(x[1], y[1])


# arithmetic types whose overflow and rounding are outside the property checked
EXACT = set()


class Interp:
    def __init__(self, prog, models=None, maxdepth=600):
        self.p = prog
        self.st = {}
        self.nroot = 0
        self.fr = None
        self.stack = []
        self.pc = []
        self.level = 0
        self.events = []          # (kind, ...) appended by models
        self.accesses = []        # container accesses: (container term, index, pc, where)
        self.unmodelled = {}
        self.maxdepth = maxdepth
        self.nfn = set()
        self.calls = 0
        self.steps = 0
        self.globals_written = []
        self.track = False
        import models as M
        self.models = M.MODELS
        self.prefix_models = M.PREFIX
        self.freshnames = {}
        self.hooks = models or {}
        self.rounding = None          # list of error symbols when rounding errors are tracked

    # ------------------------------------------------------------ store
    def root(self, val, tag='t'):
        self.nroot += 1
        r = (tag, self.nroot)
        self.st[r] = val
        return (r, ())

    def fresh(self, name, ti):
        """symbolic value of a type"""
        t = self.p.tstrip(ti)
        rid = self.p.rec_of(ti)
        if rid is not None and not is_iter(t):
            return Obj(rid, {}, name)
        s = sym(*name)
        if t in INTS:
            if t == 'bool':
                s.attr = {'bool': True}
            else:
                s.attr = {'int': True}
                if t.startswith('unsigned'):
                    s.attr['nn'] = True
        elif t in FLOATS:
            s.attr = {'num': True}
        s.attr = dict(s.attr or {}, ty=t)
        return s

    def child(self, v, pe):
        if isinstance(v, Obj):
            if pe[0] != 'f':
                raise Unsupported('index into object %s' % self.p.types[self.p.records[v.rid]['type']][:80])
            k = (pe[1], pe[2])
            r = v.f.get(k)
            if r is None:
                ti = self.p.field_type(pe[1], pe[2])
                if v.base is None:
                    rid = self.p.rec_of(ti) if ti is not None else None
                    if rid is not None and not is_iter(self.p.tstrip(ti)):
                        r = Obj(rid, {}, None)
                    else:
                        r = UNDEF
                else:
                    r = self.fresh(self.childname(v.base, pe, ti), ti)
                v.f[k] = r
            return r
        if isinstance(v, T):
            if pe[0] == 'f':
                return select(v, pe[2])
            return select(v, pe[1])
        if isinstance(v, (It, Ref)) and pe[0] == 'f':
            return select(self.term(v), pe[2])
        raise Unsupported('child of %r' % (v,))

    def childname(self, base, pe, ti):
        """name of a member of a symbolic object; list cells are named by the feature they hold"""
        n = pe[2]
        if n == 'accumulators' or n == 'cdr':
            return base
        if n == 'car' and ti is not None:
            t = self.p.tstrip(ti)
            if t.startswith('boost::accumulators::detail::accumulator_wrapper<'):
                return base + (short(split_targs(t)[1][-1]).replace('tag::', ''),)
        return base + (n,)

    def read(self, loc):
        r, path = loc
        v = self.st.get(r)
        if v is None:
            if r[0] == 'g':
                v = self.st[r] = self.fresh(('global', r[1]), r[2])
            else:
                raise Unsupported('dead root %s' % (r,))
        for pe in path:
            v = self.child(v, pe)
        return v

    def write(self, loc, val):
        r, path = loc
        if r[0] == 'g':
            self.globals_written.append((r[1], self.where()))
        if r[0] == 'c':
            return
        if not path:
            self.st[r] = val
            return
        if r not in self.st:
            self.read((r, ()))
        self.st[r] = self._upd(self.st[r], path, 0, val)

    def _upd(self, v, path, i, val):
        if i == len(path):
            return val
        pe = path[i]
        if isinstance(v, Obj):
            c = self.child(v, pe) if i + 1 < len(path) else None
            n = self._upd(c, path, i + 1, val)
            f = dict(v.f)
            f[(pe[1], pe[2])] = n
            return Obj(v.rid, f, v.base)
        if isinstance(v, T):
            idx = pe[2] if pe[0] == 'f' else pe[1]
            if i + 1 < len(path):
                n = self._upd(self.child(v, pe), path, i + 1, val)
            else:
                n = val
            return store(v, idx, self.term(n))
        raise Unsupported('write through %r' % (v,))

    def term(self, v):
        """any value as a term"""
        if isinstance(v, T):
            return v
        if isinstance(v, Obj):
            fl = []
            for rid, name, ti, mut in self.p.flat_fields(v.rid):
                fl.append((name, self.term(self.child(v, ('f', rid, name)))))
            return mk('struct', short(self.p.types[self.p.records[v.rid]['type']]), tuple(fl))
        if isinstance(v, Ref):
            return mk('ref', self.locterm(v.loc))
        if isinstance(v, It):
            return mk('it', self.locterm(v.loc), v.off)
        if isinstance(v, Fn):
            return mk('fnptr', self.p.functions[v.id]['q'])
        if isinstance(v, Lam):
            return mk('lambda', tuple(v.fns))
        if v is None:
            return UNDEF
        raise Unsupported('term of %r' % (v,))

    def locterm(self, loc):
        try:
            return self.term(self.read(loc))
        except Unsupported:
            return mk('loc', str(loc))

    # ------------------------------------------------------------ merge
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return ite(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.rid == b.rid:
            f = {}
            for k in set(a.f) | set(b.f):
                x = self.child(a, ('f',) + k)
                y = self.child(b, ('f',) + k)
                f[k] = self.merge_val(c, x, y)
            return Obj(a.rid, f, a.base if a.base is not None else b.base)
        if isinstance(a, It) and isinstance(b, It) and loc_eq(a.loc, b.loc):
            return It(a.loc, ite(c, a.off, b.off))
        if isinstance(a, Ref) and isinstance(b, Ref) and loc_eq(a.loc, b.loc):
            return a
        if b is None or b is UNDEF:
            return a
        if a is None or a is UNDEF:
            return b
        if isinstance(a, Ref) and isinstance(b, Ref):
            # two different referents: keep a read-only copy of the selected value
            return Ref(self.root(self.merge_val(c, self.read(a.loc), self.read(b.loc))))
        return ite(c, self.term(a), self.term(b))

    def merge_store(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, va in a.items():
            vb = b.get(k)
            if vb is None:
                out[k] = va
            elif va is not vb:
                out[k] = self.merge_val(c, va, vb)
        return out

    # ------------------------------------------------------------ guards
    def guarded(self, c, fn):
        """evaluate fn under condition c on a copy of the store -> (value, store)"""
        saved = self.st
        self.st = dict(saved)
        self.pc.append(c)
        np = len(self.fr.pending)
        v = fn()
        for i in range(np, len(self.fr.pending)):
            cc, k, s, x = self.fr.pending[i]
            self.fr.pending[i] = (and_(c, cc), k, s, x)
        self.pc.pop()
        st = self.st
        self.st = saved
        return v, st

    def where(self):
        for fr in reversed(self.stack + [self.fr]):
            if fr is not None and fr.fn is not None:
                w = self.p.files[fr.fn['file']]
                if w.startswith('/repo/'):
                    return '%s:%d (%s)' % (w[6:], fr.fn['line'], fr.fn['q'].replace('boost::accumulators::', ''))
        return '?'

    # ------------------------------------------------------------ lvalues
    def lv(self, e):
        k = e[0]
        if k == 'ref':
            if e[5] in ('local', 'param'):
                l = self.fr.env.get(e[3])
                if l is None:
                    raise Unsupported('unbound variable %s' % e[4])
                return l
            return self.globalloc(e)
        if k == 'mem':
            b = self.base_loc(e[3])
            if e[5] < 0:
                raise Unsupported('member %s' % e[4])
            return self.follow(b, ('f', e[5], e[4]))
        if k == 'upcast':
            if self.p.types[e[1]].endswith('*'):
                v = self.rv(e)
                return self.root(v)
            return self.lv(e[3])
        if k == 'cast' and e[3] in ('LValueBitCast', 'BaseToDerived', 'Dynamic', 'NoOp'):
            return self.lv(e[5])
        if k == 'un':
            if e[3] == '*':
                return self.deref(self.rv(e[4]))
            if e[3] in ('++', '--'):
                self.rv(e)
                return self.lv(e[4])
        if k == 'asg':
            self.rv(e)
            return self.lv(e[4])
        if k == 'index':
            return self.index_loc(e)
        if k in ('call', 'icall'):
            r = self.call(e)
            if isinstance(r, Ref) and self.call_returns_ref(e):
                return r.loc
            return self.root(r)
        if k == 'bin' and e[3] == ',':
            self.rv(e[4])
            return self.lv(e[5])
        if k == 'cond':
            c = truth(self.term(self.rv(e[3])))
            if c is TRUE:
                return self.lv(e[4])
            if c is FALSE:
                return self.lv(e[5])
            a, sa = self.guarded(c, lambda: self.lv(e[4]))
            b, sb = self.guarded(not_(c), lambda: self.lv(e[5]))
            self.st = self.merge_store(c, sa, sb)
            if loc_eq(a, b):
                return a
            return self.root(self.merge_val(c, self.read(a), self.read(b)))
        if k == 'str':
            return self.root(sym('str', e[3]))
        return self.root(self.rv(e))

    def call_returns_ref(self, e):
        if e[0] == 'icall':
            return is_ref(self.p.types[e[1]])
        f = self.p.functions.get(e[3])
        return f is not None and is_ref(self.p.types[f['ret']])

    def globalloc(self, e):
        r = ('g', e[4], e[1])
        if r not in self.st:
            self.st[r] = self.fresh(('global', e[4]), e[1])
        return (r, ())

    def base_loc(self, b):
        """location of the object in base expression b (object lvalue or pointer)"""
        if b[0] == 'this':
            return self.fr.this
        if self.p.types[b[1]].rstrip().endswith('*'):
            return self.deref(self.rv(b))
        return self.lv(b)

    def follow(self, loc, pe):
        """member location; reference members are followed"""
        l = (loc[0], loc[1] + (pe,))
        ti = self.p.field_type(pe[1], pe[2])
        if ti is not None and is_ref(self.p.types[ti]):
            v = self.read(l)
            if isinstance(v, Ref):
                return v.loc
            # unbound reference in a symbolic object: treat as its own location
        return l

    def deref(self, v):
        if isinstance(v, Ref):
            return v.loc
        if isinstance(v, It):
            self.access(v.loc, v.off)
            return (v.loc[0], v.loc[1] + (('i', v.off),))
        if isinstance(v, T):
            if v.op == 'ite':
                pass
            return self.root(mk('deref', v), 'c')
        raise Unsupported('deref of %r' % (v,))

    def index_loc(self, e):
        b = e[3]
        bt = self.p.types[b[1]]
        i = num(self.term(self.rv(e[4])))
        if bt.rstrip().endswith('*') and b[0] not in ('mem', 'ref'):
            v = self.rv(b)
        elif strip(bt).endswith('*'):
            v = self.rv(b)
        else:
            l = self.lv(b)
            self.access(l, i)
            return (l[0], l[1] + (('i', i),))
        if isinstance(v, It):
            o = add(v.off, i)
            self.access(v.loc, o)
            return (v.loc[0], v.loc[1] + (('i', o),))
        raise Unsupported('index base')

    def access(self, loc, idx):
        if self.track:
            try:
                c = self.read(loc)
            except Unsupported:
                return
            if isinstance(c, T):
                self.accesses.append((c, idx, list(self.pc), self.where(), loc))

    # ------------------------------------------------------------ rvalues
    def rv(self, e):
        self.steps += 1
        k = e[0]
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(e)

    def x_int(self, e):
        v = const(int(e[3]))
        if self.p.types[e[1]].endswith('bool'):
            return const(int(e[3]) != 0)
        return v

    def x_float(self, e):
        try:
            return const(Fraction(Decimal(e[3])))
        except Exception:
            return sym('floatlit', e[3])

    def x_bool(self, e):
        return const(bool(e[3] in (True, 'true')))

    def x_str(self, e):
        return sym('str', e[3])

    def x_null(self, e):
        return sym('nullptr')

    def x_this(self, e):
        return Ref(self.fr.this)

    def x_ref(self, e):
        return self.read(self.lv(e))

    def x_fn(self, e):
        return Fn(e[3])

    def x_mem(self, e):
        b = e[3]
        if b[0] in ('call', 'ctor', 'icall', 'init', 'zero') and not (b[0] in ('call', 'icall') and self.call_returns_ref(b)) and not self.p.types[b[1]].endswith('*'):
            v = self.rv(b)
            r = self.child(v, ('f', e[5], e[4]))
            return self.read(r.loc) if isinstance(r, Ref) and is_ref(self.p.types[self.p.field_type(e[5], e[4])]) else r
        return self.read(self.lv(e))

    def x_memfn(self, e):
        raise Unsupported('member function value')

    def x_index(self, e):
        return self.read(self.index_loc(e))

    def x_upcast(self, e):
        return self.rv(e[3])

    def x_un(self, e):
        op = e[3]
        if op == '*':
            return self.read(self.lv(e))
        if op == '&':
            l = self.lv(e[4])
            if l[1] and l[1][-1][0] == 'i':
                return It((l[0], l[1][:-1]), l[1][-1][1])
            return Ref(l)
        if op in ('++', '--', 'post++', 'post--'):
            l = self.lv(e[4])
            v = self.read(l)
            d = ONE if '++' in op else const(-1)
            if isinstance(v, It):
                n = It(v.loc, add(v.off, d))
            else:
                n = add(num(self.term(v)), d)
                ty = self.p.tstrip(e[4][1])
                if ty in INTS and ty != 'bool' and WIDTH[ty] <= 16 and n.op != 'c':
                    n = fn('narrow', ty, n)  # a counter this small wraps around in ordinary use
            self.write(l, n)
            return v if op.startswith('post') else n
        v = self.rv(e[4])
        if op == '-':
            return neg(num(self.term(v)))
        if op == '+':
            return num(self.term(v))
        if op == '!':
            return not_(truth(self.term(v)))
        if op == '~':
            return fn('~', self.term(v))
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def x_bin(self, e):
        op = e[3]
        if op == ',':
            self.rv(e[4])
            return self.rv(e[5])
        if op in ('&&', '||'):
            a = truth(self.term(self.rv(e[4])))
            if op == '&&' and a is FALSE:
                return FALSE
            if op == '||' and a is TRUE:
                return TRUE
            g = a if op == '&&' else not_(a)
            b, s = self.guarded(g, lambda: truth(self.term(self.rv(e[5]))))
            self.st = self.merge_store(g, s, self.st)
            return and_(a, b) if op == '&&' else or_(a, b)
        if op in ('.*', '->*'):
            raise Unsupported('pointer to member')
        a = self.rv(e[4])
        b = self.rv(e[5])
        return self.binop(op, a, b, e[1], e[4][1], e[5][1])

    def rnd(self, r):
        """result of a floating-point operation: exact value times (1 + error symbol)"""
        if r.op == 'c':
            return r
        d = sym('delta%d' % len(self.rounding))
        d.attr = {'num': True}
        self.rounding.append(d)
        return mul(r, add(ONE, d))

    def binop(self, op, a, b, rt, at=None, bt=None):
        r = self.binop_(op, a, b, rt, at, bt)
        if self.rounding is not None and op in ('+', '-', '*', '/') and isinstance(r, T) and self.p.tstrip(rt) in FLOATS:
            return self.rnd(r)
        return r

    def binop_(self, op, a, b, rt, at=None, bt=None):
        if isinstance(a, It) or isinstance(b, It):
            return self.itop(op, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ('==', '!='):
            r = const(bool(loc_eq(a.loc, b.loc)))
            return r if op == '==' else not_(r)
        a = self.term(a)
        b = self.term(b)
        if op == '==':
            return eq(a, b) if is_bool(a) == is_bool(b) else eq(num(a), num(b))
        if op == '!=':
            return not_(eq(a, b) if is_bool(a) == is_bool(b) else eq(num(a), num(b)))
        a = num(a)
        b = num(b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return not_(lt(b, a))
        if op == '>=':
            return not_(lt(a, b))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if self.p.tstrip(rt) in INTS:
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
                return const(int(a.args[0]) % int(b.args[0]))
            r = fn('mod', a, b)
            r.attr = {'int': True}
            return r
        return fn(op, a, b)

    def itop(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if not loc_eq(a.loc, b.loc):
                if op in ('==', '!='):
                    # iterators of equal snapshots
                    ta, tb = self.locterm(a.loc), self.locterm(b.loc)
                    if ta is not tb:
                        return fn(op, self.term(a), self.term(b))
                else:
                    ta, tb = self.locterm(a.loc), self.locterm(b.loc)
                    if ta is not tb:
                        raise Unsupported('iterators of different containers')
            d = {'==': eq, '!=': lambda x, y: not_(eq(x, y)), '<': lt, '>': lambda x, y: lt(y, x),
                 '<=': lambda x, y: not_(lt(y, x)), '>=': lambda x, y: not_(lt(x, y)), '-': sub}.get(op)
            if d is None:
                raise Unsupported('iterator op ' + op)
            return d(a.off, b.off)
        if isinstance(a, It):
            b = num(self.term(b))
            if op == '+':
                return It(a.loc, add(a.off, b))
            if op == '-':
                return It(a.loc, sub(a.off, b))
        elif op == '+':
            return It(b.loc, add(b.off, num(self.term(a))))
        return fn(op, self.term(a), self.term(b))

    def x_asg(self, e):
        op = e[3]
        if op == '=':
            v = self.rv(e[5])
            l = self.lv(e[4])
            if isinstance(v, T) and self.p.types[e[4][1]] != 'bool' and is_bool(v):
                v = num(v) if self.p.tstrip(e[4][1]) in INTS or self.p.tstrip(e[4][1]) in FLOATS else v
            self.write(l, v)
            return v
        b = self.rv(e[5])
        l = self.lv(e[4])
        a = self.read(l)
        ct = e[6] if len(e) > 6 else e[1]
        n = self.binop(op[:-1], a, b, ct)
        if isinstance(n, T):
            n = self.convert(n, self.p.tstrip(ct), self.p.tstrip(e[4][1]))
        self.write(l, n)
        return n

    def convert(self, v, src, dst):
        if dst == 'bool':
            return truth(v)
        v = num(v)
        if src == dst or dst in EXACT and src in FLOATS and dst in FLOATS or dst in EXACT and src in INTS and dst in INTS:
            return v
        if dst in FLOATS:
            if src in FLOATS and FLOATS[src] > FLOATS[dst] and v.op != 'c':
                if self.rounding is not None:
                    return self.rnd(v)
                return fn('narrow', dst, v)
            return v
        if dst in INTS:
            if src in FLOATS:
                if v.op == 'c':
                    return const(int(v.args[0]))
                return toint(v)
            if src in INTS and WIDTH[src] > WIDTH[dst] and v.op != 'c':
                return fn('narrow', dst, v)
            return v
        return v

    def x_cast(self, e):
        kind, expl, sub_ = e[3], e[4], e[5]
        if kind in ('IntegralToFloating', 'FloatingToIntegral', 'IntegralCast', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean'):
            v = self.rv(sub_)
            if not isinstance(v, T):
                return v
            return self.convert(v, self.p.tstrip(sub_[1]), self.p.tstrip(e[1]))
        if kind == 'PointerToBoolean':
            v = self.rv(sub_)
            return TRUE if isinstance(v, (Ref, It)) else truth(self.term(v))
        if kind == 'ToVoid':
            self.rv(sub_) if sub_[0] not in ('ref',) else None
            return UNDEF
        return self.rv(sub_)

    def x_cond(self, e):
        c = truth(self.term(self.rv(e[3])))
        if c is TRUE:
            return self.rv(e[4])
        if c is FALSE:
            return self.rv(e[5])
        a, sa = self.guarded(c, lambda: self.rv(e[4]))
        b, sb = self.guarded(not_(c), lambda: self.rv(e[5]))
        self.st = self.merge_store(c, sa, sb)
        return self.merge_val(c, a, b)

    def x_zero(self, e):
        return self.zero(e[1])

    def zero(self, ti):
        t = self.p.tstrip(ti)
        if t == 'bool':
            return FALSE
        if t in INTS or t in FLOATS:
            return ZERO
        if t.endswith('*'):
            return sym('nullptr')
        rid = self.p.rec_of(ti)
        if rid is not None:
            o = Obj(rid)
            for r, n, fti, m in self.p.flat_fields(rid):
                o.f[(r, n)] = self.zero(fti)
            return o
        if t.endswith(']'):
            return mk('vecfill', const(int(t[t.rindex('[') + 1:-1])), ZERO)
        return mk('zero', short(t))

    def x_init(self, e):
        rid = self.p.rec_of(e[1])
        if rid is not None:
            o = Obj(rid)
            fl = self.p.flat_fields(rid)
            for (r, n, fti, m), x in zip(fl, e[3]):
                o.f[(r, n)] = self.rv(x) if not is_ref(self.p.types[fti]) else Ref(self.lv(x))
            for (r, n, fti, m) in fl[len(e[3]):]:
                o.f[(r, n)] = self.zero(fti)
            return o
        t = self.p.tstrip(e[1])
        if (t in INTS or t in FLOATS) and len(e[3]) == 1:
            return self.rv(e[3][0])
        els = e[3]
        if len(els) == 1 and els[0][0] == 'init':
            els = els[0][3]
        n = len(els)
        if t.endswith(']'):
            n = int(t[t.rindex('[') + 1:-1])
        elif t.startswith(('boost::array<', 'std::array<')):
            n = int(split_targs(t)[1][1].rstrip('UL'))
        v = mk('vecfill', const(n), ZERO)
        for i, x in enumerate(els):
            v = store(v, const(i), self.term(self.rv(x)))
        return v

    def x_new(self, e):
        return Ref(self.root(self.rv(e[5]) if e[5] else UNDEF))

    def x_delete(self, e):
        return UNDEF

    def x_throw(self, e):
        self.do_throw(self.p.types[e[3][1]] if e[3] else 'rethrow')
        return UNDEF

    def do_throw(self, what):
        self.fr.pending.append((TRUE, 'throw', self.st, mk('throw', short(what))))

    def x_lambda(self, e):
        env = dict(self.fr.env)
        for vid, byref, init in e[4]:
            if vid and not byref:
                l = env.get(vid)
                if l is not None:
                    env[vid] = self.root(self.read(l))
                elif init is not None:
                    env[vid] = self.root(self.rv(init))
        return Lam(tuple(e[3]), env, self.fr.this)

    def x_pseudodtor(self, e):
        return UNDEF

    def x_sizeof(self, e):
        return sym('sizeof', e[1])

    def x_unk(self, e):
        raise Unsupported('expression ' + e[3])

    def copy_into(self, loc, src, rid, kind):
        """copy construction ('copy', 'move') or assignment ('copyassign') of the class rid, running the
        copy operations the program provides"""
        f = self.p.copiers().get((kind, rid))
        if f is None and kind == 'move':
            f = self.p.copiers().get(('copy', rid))
        if f is not None:
            self.invoke(f, loc, [Ref(src)])
            return
        rec = self.p.records[rid]
        for bt, bid in rec.get('bases', []):
            if bid in self.p.records:
                self.copy_into(loc, src, bid, kind)
        for n, ti, m, l in rec.get('fields', []):
            st = ('f', rid, n)
            x = self.p.rec_of(ti)
            a, b = (loc[0], loc[1] + (st,)), (src[0], src[1] + (st,))
            if x is not None and not is_ref(self.p.types[ti]) and self.p.special(x):
                if not isinstance(self.read(a), Obj):
                    self.write(a, Obj(x))
                self.copy_into(a, b, x, kind)
            else:
                self.write(a, self.read(b))

    def special_copy(self, f):
        """record whose implicit copy runs repository code"""
        if f is None or 'rec' not in f or f['rec'] not in self.p.records:
            return None
        return f['rec'] if self.p.special(f['rec']) else None

    def x_ctor(self, e):
        if e[5] and len(e[4]) == 1:
            f = self.p.functions.get(e[3])
            if self.special_copy(f) is not None and not ('body' in f and not f.get('defaulted')):
                loc = self.root(Obj(self.p.rec_of(e[1])))
                self.copy_into(loc, self.lv(e[4][0]), f['rec'], 'move' if f.get('move') else 'copy')
                return self.read(loc)
            if f is None or 'body' not in f or f.get('defaulted'):
                t = self.p.tstrip(e[1])
                if f is None or f.get('implicit') or f.get('defaulted') or t.startswith(CONTAINERS) or is_iter(t) or 'body' not in f:
                    return self.rv(e[4][0])
        return self.construct(e)

    def construct(self, e, loc=None):
        """value of a constructor call; in place when loc is given"""
        f = self.p.functions.get(e[3])
        t = self.p.tstrip(e[1])
        if f is None:
            raise Unsupported('constructor')
        q = f['q']
        h = self.models.get(q) or self.models.get('ctor:' + q)
        if h is not None or t.startswith(CONTAINERS) or is_iter(t):
            if h is None:
                h = self.models['ctor:container'] if t.startswith(CONTAINERS) else self.models['ctor:iterator']
            v = h(self, f, None, self.args_for(f, e[4]), e)
            if loc is not None:
                self.write(loc, v)
                return None
            return v
        rid = self.p.rec_of(e[1])
        tmp = loc is None
        if tmp:
            loc = self.root(Obj(rid) if rid is not None else UNDEF)
        elif e[5] is False or True:
            cur = self.read(loc)
            if not isinstance(cur, Obj):
                self.write(loc, Obj(rid) if rid is not None else UNDEF)
        self.run_ctor(f, loc, e[4], e)
        if tmp:
            v = self.read(loc)
            return v
        return None

    def run_ctor(self, f, loc, argx, e=None):
        if 'body' in f and not (f.get('defaulted') and (f.get('copy') or f.get('move'))):
            args = self.args_for(f, argx)
            self.invoke(f, loc, args)
            return
        if (f.get('copy') or f.get('move')) and argx:
            if self.special_copy(f) is not None:
                self.copy_into(loc, self.lv(argx[0]), f['rec'], 'move' if f.get('move') else 'copy')
                return
            v = self.rv(argx[0])
            self.assign_obj(loc, v, f)
            return
        if not argx:
            # implicit default constructor without emitted body: members default-initialised
            return
        q = f['q']
        rid = self.p.rec_by_type.get(self.p.types[f['rt']])
        if q.startswith(('std::pair', 'std::tuple')) and rid is not None:
            fl = self.p.flat_fields(rid)
            if len(fl) == len(argx):
                for (r, n, ti, m), x in zip(fl, argx):
                    self.write((loc[0], loc[1] + (('f', r, n),)), self.rv(x))
                return
        args = self.args_for(f, argx)
        self.note(f)
        self.write(loc, fn('new:' + short(self.p.types[f['rt']])[:60], *[self.term(self.deval(a)) for a in args]))

    def assign_obj(self, loc, v, f):
        """member-wise copy of v into (a base of) the object at loc"""
        if isinstance(v, Obj) and f is not None and 'rt' in f:
            rid = self.p.rec_by_type.get(self.p.types[f['rt']])
            cur = self.read(loc)
            if rid is not None and isinstance(cur, Obj) and (cur.rid != rid or v.rid != rid):
                for r, n, ti, m in self.p.flat_fields(rid):
                    self.write((loc[0], loc[1] + (('f', r, n),)), self.child(v, ('f', r, n)))
                return
        self.write(loc, v)

    # ------------------------------------------------------------ calls
    def args_for(self, f, argx):
        out = []
        ps = f['params']
        for i, x in enumerate(argx):
            if i < len(ps) and is_ref(self.p.types[ps[i][2]]):
                out.append(Ref(self.lv(x)))
            elif i < len(ps):
                out.append(self.rv(x))
            else:
                out.append(self.rv(x))
        return out

    def deval(self, a):
        return self.read(a.loc) if isinstance(a, Ref) else a

    def note(self, f):
        self.unmodelled[f['q']] = self.unmodelled.get(f['q'], 0) + 1

    def x_call(self, e):
        r = self.call(e)
        if isinstance(r, Ref) and self.call_returns_ref(e):
            return self.read(r.loc)
        return r

    x_icall = x_call

    def call(self, e):
        if e[0] == 'icall':
            c = self.rv(e[3])
            if isinstance(c, Ref):
                c = self.read(c.loc)
            if isinstance(c, Fn):
                f = self.p.functions[c.id]
                return self.apply(f, None, self.args_for(f, e[4]), e)
            args = [self.term(self.rv(a)) for a in e[4]]
            return fn('icall', self.term(c), *args)
        f = self.p.functions.get(e[3])
        if f is None:
            raise Unsupported('call')
        obj = None
        if e[4] is not None:
            if 'rec' in f and not f.get('static'):
                o = e[4]
                if self.p.types[o[1]].rstrip().endswith('*') and o[0] != 'this':
                    obj = self.deref(self.rv(o))
                elif o[0] == 'this':
                    obj = self.fr.this
                else:
                    obj = self.lv(o)
            else:
                self.rv(e[4])
        args = self.args_for(f, e[5])
        return self.apply(f, obj, args, e)

    def apply(self, f, obj, args, e=None):
        q = f['q']
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, obj, args, e)
            if r is not NotImplemented:
                return r
        h = self.models.get(q)
        if h is None:
            for pre, hh in self.prefix_models:
                if q.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, f, obj, args, e)
            if r is not NotImplemented:
                return r
        if obj is not None:
            ov = None
            if f['name'] == 'operator()':
                ov = self.read(obj)
                if isinstance(ov, Lam):
                    return self.call_lambda(ov, f, args)
        if 'body' in f and not (f.get('defaulted') and f.get('copyassign')):
            return self.invoke(f, obj, args)
        if f.get('copyassign') or (f['name'] == 'operator=' and f.get('implicit')):
            if self.special_copy(f) is not None:
                self.copy_into(obj, args[0].loc if isinstance(args[0], Ref) else self.root(args[0]), f['rec'], 'copyassign')
                return Ref(obj)
            v = self.deval(args[0])
            self.assign_obj(obj, v, f)
            return Ref(obj)
        if f['kind'] == 'dtor':
            return UNDEF
        if f['kind'] == 'conv':
            t = self.p.tstrip(f['ret'])
            ct = self.p.types[f['rt']]
            if 'integral_constant' in ct or 'bool_<' in ct:
                a = split_targs(ct)[1]
                if a:
                    s = a[-1]
                    if s in ('true', 'false'):
                        return const(s == 'true')
                    try:
                        return const(int(s.rstrip('UL')))
                    except ValueError:
                        pass
        self.note(f)
        ts = [self.term(self.deval(a)) for a in args]
        if obj is not None:
            ts.insert(0, self.locterm(obj))
        # non-const reference parameters may be changed
        for a, pr in zip(args, f['params']):
            pt = self.p.types[pr[2]]
            if isinstance(a, Ref) and is_ref(pt) and not pt.startswith('const ') and not pt.endswith('&&'):
                self.write(a.loc, fn('havoc:' + q, *ts))
        if obj is not None and 'rec' in f and not f.get('const') and not f.get('static'):
            self.write(obj, fn('havoc:' + q, *ts))
        r = fn(q, *ts)
        if is_ref(self.p.types[f['ret']]):
            return Ref(self.root(r))
        return r

    def call_lambda(self, lam, f, args):
        saved = self.fr
        fid = f['id'] if f['id'] in lam.fns else (lam.fns[0] if lam.fns else None)
        g = self.p.functions[fid]
        return self.invoke(g, lam.this, args, env=lam.env)

    def invoke(self, f, this, args, env=None):
        self.calls += 1
        self.nfn.add(f['id'])
        if len(self.stack) > self.maxdepth:
            raise Unsupported('inline depth at %s' % f['q'])
        env = dict(env) if env else {}
        for pr, a in zip(f['params'], args):
            if is_ref(self.p.types[pr[2]]):
                env[pr[0]] = a.loc if isinstance(a, Ref) else self.root(a)
            else:
                env[pr[0]] = self.root(a)
        if this is not None:
            t0 = self.st.get(this[0])
        self.stack.append(self.fr)
        npc = len(self.pc)
        self.fr = Frame(env, this, f)
        if f['kind'] == 'ctor':
            self.ctor_inits(f, this)
        exits, normal = self.exec(f['body'])
        exits = self.fr.pending + exits if False else exits
        frame = self.fr
        self.fr = self.stack.pop()
        del self.pc[npc:]
        # join the exits
        rets = []
        for n, (c, k, s, v) in enumerate(exits):
            if k == 'throw':
                # taken when none of the exits before it was
                for x in exits[:n]:
                    c = and_(c, not_(x[0]))
                self.fr.pending.append((c, k, s, v)) if self.fr else self.events.append(('throw', c, v))
            elif k == 'ret':
                rets.append((c, s, v))
            else:
                raise Unsupported('stray ' + k)
        if normal is None:
            if not rets:
                # only throws
                return UNDEF if not is_ref(self.p.types[f['ret']]) else Ref(self.root(UNDEF))
            c, st, v = rets.pop()
        else:
            st, v = normal, None
        for c, s, x in reversed(rets):
            v = self.merge_val(c, x, v) if v is not None or x is not None else None
            if s is not st:
                # values created by merge_val live in self.st; keep them
                st = self.merge_store(c, s, st)
        if st is not self.st:
            for k2, vv in self.st.items():
                if k2 not in st:
                    st[k2] = vv
        self.st = st
        return v if v is not None else UNDEF

    def ctor_inits(self, f, this):
        rid = self.p.rec_by_type.get(self.p.types[f['rt']])
        for kind, what, ex, line, written in f.get('inits', []):
            if kind == 'field':
                pe = ('f', rid, what)
                loc = (this[0], this[1] + (pe,))
                ti = self.p.field_type(rid, what)
                if ti is not None and is_ref(self.p.types[ti]):
                    self.write(loc, Ref(self.lv(ex)))
                elif ex is None:
                    pass
                elif ex[0] == 'ctor' and not (ex[5]):
                    self.construct_into(ex, loc, ti)
                else:
                    v = self.rv(ex)
                    self.write(loc, v)
            elif kind == 'base':
                if ex is None:
                    continue
                if ex[0] == 'ctor':
                    g = self.p.functions.get(ex[3])
                    self.run_ctor(g, this, ex[4], ex)
                elif ex[0] in ('zero', 'init'):
                    pass
                else:
                    v = self.rv(ex)
                    brid = self.p.rec_of(what)
                    if isinstance(v, Obj) and brid is not None:
                        for r, n, ti, m in self.p.flat_fields(brid):
                            self.write((this[0], this[1] + (('f', r, n),)), self.child(v, ('f', r, n)))
            else:
                g = self.p.functions.get(ex[3])
                self.run_ctor(g, this, ex[4], ex)

    def construct_into(self, ex, loc, ti):
        v = self.construct(ex)
        self.write(loc, v)

    # ------------------------------------------------------------ statements
    # exec -> (exits, normal store or None); exits are tested in order
    def exec(self, s):
        if s is None:
            return [], self.st
        self.steps += 1
        m = getattr(self, 's_' + s[0], None)
        if m is None:
            raise Unsupported('statement ' + s[0] + (' ' + str(s[2]) if len(s) > 2 else ''))
        return m(s)

    def take_pending(self):
        p = self.fr.pending
        self.fr.pending = []
        return p

    def fin(self, exits=None):
        """exits collected by calls in the statement, then the fall-through store"""
        pend = self.take_pending()
        ex = pend + (exits or [])
        if any(c is TRUE for c, k, s, v in pend):
            return ex, None
        return ex, self.st

    def s_expr(self, s):
        self.rv(s[2]) if not (s[2] and s[2][0] == 'call' and self.call_returns_ref(s[2])) else self.call(s[2])
        return self.fin()

    def s_null(self, s):
        return [], self.st

    def s_block(self, s):
        exits = []
        npc = len(self.pc)
        for x in s[2]:
            ex, n = self.exec(x)
            for c, k, st, v in ex:
                exits.append((c, k, st, v))
            if n is None:
                del self.pc[npc:]
                return exits, None
            self.st = n
            for c, k, st, v in ex:
                self.pc.append(not_(c))
        del self.pc[npc:]
        return exits, self.st

    def s_decl(self, s):
        for vid, name, ti, init, static in s[2]:
            t = self.p.types[ti]
            if static:
                r = ('g', 'static ' + name + ' in ' + self.fr.fn['q'], ti)
                if r not in self.st:
                    self.st[r] = self.fresh(('global', r[1]), ti)
                self.fr.env[vid] = (r, ())
                continue
            if is_ref(t):
                self.fr.env[vid] = self.lv(init)
                continue
            if init is None:
                rid = self.p.rec_of(ti)
                self.fr.env[vid] = self.root(Obj(rid) if rid is not None and not is_iter(strip(t)) else (mk('uninit', short(strip(t))) if strip(t).endswith(']') or strip(t).startswith(('boost::array', 'std::array')) else UNDEF), 'v')
                continue
            rid = self.p.rec_of(ti)
            if init[0] == 'ctor' and rid is not None and not init[5] and not is_iter(strip(t)):
                loc = self.root(Obj(rid), 'v')
                self.fr.env[vid] = loc
                f = self.p.functions.get(init[3])
                if self.models.get(f['q']) or self.models.get('ctor:' + f['q']):
                    self.write(loc, self.construct(init))
                else:
                    self.run_ctor(f, loc, init[4], init)
            else:
                v = self.rv(init)
                if isinstance(v, T) and strip(t) == 'bool':
                    v = truth(v)
                self.fr.env[vid] = self.root(v, 'v')
        return self.fin()

    def s_ret(self, s):
        if s[2] is None:
            p = self.take_pending()
            return p + [(TRUE, 'ret', self.st, None)], None
        if is_ref(self.p.types[self.fr.fn['ret']]):
            v = Ref(self.lv(s[2]))
        else:
            v = self.rv(s[2])
        pend = self.take_pending()
        if any(c is TRUE for c, k, st, x in pend):
            return pend, None
        return pend + [(TRUE, 'ret', self.st, v)], None

    def s_break(self, s):
        return [(TRUE, 'break', self.st, None)], None

    def s_continue(self, s):
        return [(TRUE, 'continue', self.st, None)], None

    def s_if(self, s):
        _, line, pre, cv, cond, then, els = s
        exits = []
        if pre is not None:
            ex, n = self.exec(pre)
            exits += ex
            self.st = n
        if cv is not None:
            ex, n = self.s_decl(['decl', line, [cv]])
            exits += ex
            self.st = n
        c = truth(self.term(self.rv(cond)))
        exits += self.take_pending()
        if c is TRUE or c is FALSE:
            x = then if c is TRUE else els
            if x is None:
                return exits, self.st
            ex, n = self.exec(x)
            return exits + ex, n
        base = self.st
        env = self.fr.env

        def branch(cc, st):
            self.st = dict(base)
            self.fr.env = dict(env)
            self.pc.append(cc)
            ex, n = self.exec(st) if st is not None else ([], self.st)
            self.pc.pop()
            ex = list(ex)
            if n is None and ex:
                l = ex[-1]
                ex[-1] = (TRUE,) + l[1:]
            return [(and_(cc, q), k, ss, v) for q, k, ss, v in ex], n
        e1, n1 = branch(c, then)
        e2, n2 = branch(not_(c), els)
        self.fr.env = env
        exits += e1 + e2
        if n1 is None:
            return exits, n2
        if n2 is None:
            return exits, n1
        return exits, self.merge_store(c, n1, n2)

    def s_for(self, s):
        _, line, init, cond, inc, body = s
        exits = []
        if init is not None:
            ex, n = self.exec(init)
            exits += ex
            self.st = n
        ex, n = self.loop(lambda: truth(self.term(self.rv(cond))) if cond is not None else TRUE,
                          lambda: self.exec(body), lambda: self.rv(inc) if inc is not None else None)
        return exits + ex, n

    def s_while(self, s):
        return self.loop(lambda: truth(self.term(self.rv(s[2]))), lambda: self.exec(s[3]), lambda: None)

    def s_do(self, s):
        return self.loop(lambda: truth(self.term(self.rv(s[2]))), lambda: self.exec(s[3]), lambda: None, first=True)

    def s_rfor(self, s):
        _, line, var, rng, body = s
        l = self.lv(rng)
        c = self.read(l)
        if not isinstance(c, T):
            raise Unsupported('range-for over a class')
        cnt = self.root(ZERO, 'v')
        n = size_of(c)
        vid, name, ti, init, static = var

        def run():
            i = self.read(cnt)
            el = (l[0], l[1] + (('i', i),))
            self.access(l, i)
            self.fr.env[vid] = el if is_ref(self.p.types[ti]) else self.root(self.read(el), 'v')
            return self.exec(body)

        def inc():
            self.write(cnt, add(self.read(cnt), ONE))
        return self.loop(lambda: lt(self.read(cnt), n), run, inc)

    def s_switch(self, s):
        _, line, cond, body = s
        v = num(self.term(self.rv(cond)))
        exits0 = self.take_pending()
        stm = body[2] if body[0] == 'block' else [body]
        flat = []
        for x in stm:
            lab = []
            while x is not None and x[0] in ('case', 'default'):
                lab.append(None if x[0] == 'default' else x[2])
                x = x[3] if x[0] == 'case' else x[2]
            flat.append((lab, x))
        entries = [(l, i) for i, (lab, x) in enumerate(flat) for l in lab]
        chain = []
        dflt = None
        for l, i in entries:
            if l is None:
                dflt = i
            else:
                chain.append((eq(v, num(self.term(self.rv(l)))), i))
        base = self.st

        def run(i):
            self.st = dict(base)
            if i is None:
                return [], self.st
            return self.s_block(['block', line, [x for lab, x in flat[i:]]])

        res = []
        other = TRUE
        allx = []
        nst = None
        for c, i in chain + [(TRUE, dflt)]:
            cc = and_(other, c)
            if cc is FALSE:
                continue
            self.pc.append(cc)
            ex, n = run(i)
            self.pc.pop()
            ex = list(ex)
            if n is None and ex:
                ex[-1] = (TRUE,) + ex[-1][1:]
            res.append((cc, ex, n))
            other = and_(other, not_(c))
        exits = []
        joins = []
        for cc, ex, n in res:
            brk, ex = split_exits(ex, 'break')
            joins += [(and_(cc, q), st) for q, st in brk]
            exits += [(and_(cc, q), k, st, vv) for q, k, st, vv in ex]
            if n is not None:
                joins.append((cc, n))
        if not joins:
            return exits0 + exits, None
        st = joins[-1][1]
        for cc, n in reversed(joins[:-1]):
            st = self.merge_store(cc, n, st)
        return exits0 + exits, st

    def s_try(self, s):
        return self.exec(s[2])

    def s_unkstmt(self, s):
        raise Unsupported('statement ' + s[2])

    # ------------------------------------------------------------ loops
    def loop(self, condf, bodyf, incf, first=False, maxunroll=128):
        exits = []
        breaks = []      # (cond, store) in order, relative to loop entry; tested before later exits
        order = []       # interleaved exits
        for it in range(maxunroll):
            if not (first and it == 0):
                pre = self.st
                st0 = dict(self.st)
                ev = len(self.events)
                acc = len(self.accesses)
                npend = len(self.fr.pending)
                c = condf()
                if c is FALSE:
                    exits += self.take_pending()
                    return self.loop_join(order, self.st)
                if c is not TRUE:
                    # symbolic trip count
                    self.st = st0
                    del self.events[ev:]
                    del self.accesses[acc:]
                    del self.fr.pending[npend:]
                    ex, n = self.symloop(condf, bodyf, incf)
                    order += ex
                    return self.loop_join(order, n)
            env = dict(self.fr.env)
            ex, n = bodyf()
            self.fr.env = env
            conts, rest = split_exits(ex, 'continue')
            order += rest
            if n is None and not conts:
                return self.loop_join(order, None)
            if conts:
                if n is None:
                    n = conts.pop()[1]
                for q, st in reversed(conts):
                    n = self.merge_store(q, st, n)
            self.st = n
            incf()
            order += self.take_pending()
        raise Unsupported('loop bound')

    def loop_join(self, order, normal):
        """breaks leave the loop, everything else propagates; order is the test order"""
        if not any(k == 'break' for q, k, s, v in order):
            return order, normal
        exits = []
        st = normal
        brk = []
        for q, k, s, v in order:
            if k == 'break':
                brk.append((q, s))
        others = [(q, k, s, v) for q, k, s, v in order if k != 'break']
        # a break tested earlier hides later exits
        out = []
        hid = FALSE
        for q, k, s, v in order:
            if k == 'break':
                hid = or_(hid, q)
            else:
                out.append((and_(not_(hid), q), k, s, v))
        for q, s in reversed(brk):
            st = s if st is None else self.merge_store(q, s, st)
        return out, st

    def leaves(self, v, path=()):
        if isinstance(v, Obj):
            for k, x in v.f.items():
                yield from self.leaves(x, path + (('f',) + k,))
        else:
            yield path, v

    def ret_shape(self, rv):
        """leaves of the objects returned from within a loop, if they agree in shape and hold iterators"""
        if not rv or not all(isinstance(v, Obj) and v.rid == rv[0].rid for v in rv):
            return None
        ls = [dict(self.leaves(v)) for v in rv]
        if not any(isinstance(x, It) for x in ls[0].values()):
            return None
        for l in ls:
            if set(l) != set(ls[0]):
                return None
            for k, x in l.items():
                y = ls[0][k]
                if isinstance(x, It) != isinstance(y, It) or isinstance(x, It) and not loc_eq(x.loc, y.loc):
                    return None
        return sorted(ls[0].items(), key=lambda z: str(z[0]))

    def symloop(self, condf, bodyf, incf):
        entry = self.st
        env0 = self.fr.env
        carried = {}      # (root,path) -> (phi, init value)
        lvl = self.level
        self.level += 1
        nid = [0]
        try:
            for rnd in range(40):
                st = dict(entry)
                self.st = st
                self.fr.env = dict(env0)
                for (r, path), (phi, init) in carried.items():
                    self.write((r, path), It(init.loc, phi) if isinstance(init, It) else phi)
                start = dict(self.st)
                ev = len(self.events)
                acc = len(self.accesses)
                nroot = self.nroot
                c = condf()
                pend = self.take_pending()
                self.pc.append(c)
                ex, n = bodyf()
                conts, ex = split_exits(ex, 'continue')
                ex = pend + ex
                if n is None and conts:
                    n = conts.pop()[1]
                if n is not None:
                    for q, s in reversed(conts):
                        n = self.merge_store(q, s, n)
                    self.st = n
                    incf()
                    n = self.st
                self.pc.pop()
                new = []
                for sx in ([n] if n is not None else []) + [s for q, k, s, v in ex]:
                    for r, v0 in start.items():
                        v1 = sx.get(r)
                        if v1 is v0 or v1 is None:
                            continue
                        l0 = dict(self.leaves(v0))
                        for path, x in self.leaves(v1):
                            y = l0.get(path)
                            if y is None:
                                try:
                                    y = v0
                                    for pe in path:
                                        y = self.child(y, pe)
                                except Unsupported:
                                    continue
                            if x is y:
                                continue
                            if isinstance(x, It) and isinstance(y, It) and x.off is y.off and loc_eq(x.loc, y.loc):
                                continue
                            if isinstance(x, Ref) and isinstance(y, Ref) and loc_eq(x.loc, y.loc):
                                continue
                            if (r, path) not in carried and (r, path) not in new:
                                new.append((r, path))
                if not new:
                    break
                del self.events[ev:]
                del self.accesses[acc:]
                for key in new:
                    self.st = dict(entry)
                    init = self.read(key)
                    nid[0] += 1
                    phi = mk('phi', lvl, nid[0])
                    if isinstance(init, It):
                        phi.attr = {'int': True}
                        carried[key] = (phi, init)
                    elif isinstance(init, T):
                        a = dict(init.attr or {})
                        if init.op == 'c' and init.args[0].denominator == 1:
                            a['num'] = True
                        if is_bool(init):
                            a['bool'] = True
                        if a:
                            phi.attr = a
                        carried[key] = (phi, init)
                    else:
                        raise Unsupported('loop carries %r' % (init,))
            else:
                raise Unsupported('loop does not stabilise')
        finally:
            self.level -= 1
            self.fr.env = env0
        # next values
        keys = list(carried)
        phis = [carried[k][0] for k in keys]
        inits = [(carried[k][1].off if isinstance(carried[k][1], It) else carried[k][1]) for k in keys]

        def getterm(store, key):
            self.st = store
            v = self.read(key)
            i0 = carried[key][1]
            if isinstance(i0, It):
                if isinstance(v, It):
                    if not loc_eq(v.loc, i0.loc):
                        raise Unsupported('loop iterator changes container')
                    return v.off
            return self.term(v)
        nexts = []
        flag = None
        rets = [(q, k, s, v) for q, k, s, v in ex]
        if rets:
            flag = mk('phi', lvl, 0)
            flag.attr = {'int': True}
        retphi = None
        for key in keys:
            t = getterm(n, key) if n is not None else phis[keys.index(key)]
            for q, k, s, v in reversed(rets):
                t = ite(q, getterm(s, key), t)
            nexts.append(t)
        cond = c
        outs_extra = []
        if rets:
            nf = ZERO
            for j, (q, k, s, v) in reversed(list(enumerate(rets))):
                nf = ite(q, const(j + 1), nf)
            phis = phis + [flag]
            inits = inits + [ZERO]
            nexts = nexts + [nf]
            cond = and_(eq(flag, ZERO), c)
            rv = [(v) for q, k, s, v in rets if k == 'ret' and v is not None]
            shape = self.ret_shape(rv)
            if shape:
                # an object that holds positions: returned leaf by leaf
                for path, x0 in shape:
                    rp = mk('phi', lvl, -1 - len(outs_extra))
                    t = rp
                    for q, k, s, v in reversed(rets):
                        if k == 'ret' and v is not None:
                            x = dict(self.leaves(v))[path]
                            t = ite(q, x.off if isinstance(x, It) else self.term(x), t)
                    outs_extra.append((path, x0))
                    phis.append(rp)
                    inits.append(UNDEF)
                    nexts.append(t)
            elif rv:
                retphi = mk('phi', lvl, -1)
                t = retphi
                for q, k, s, v in reversed(rets):
                    if k == 'ret' and v is not None:
                        t = ite(q, self.term(v), t)
                phis.append(retphi)
                inits.append(UNDEF)
                nexts.append(t)
        outs = close_mu(lvl, phis, inits, nexts, cond)
        self.st = dict(entry)
        for key, o in zip(keys, outs):
            i0 = carried[key][1]
            self.write(key, It(i0.loc, o) if isinstance(i0, It) else o)
        # side effects of the last evaluation of the condition
        self.pc.append(TRUE)
        condf()
        self.pc.pop()
        self.take_pending()
        st = self.st
        exits = []
        if rets:
            fo = outs[len(keys)]
            for j, (q, k, s, v) in enumerate(rets):
                if k == 'break':
                    continue
                cj = eq(fo, const(j + 1))
                val = outs[-1] if k == 'ret' and v is not None else v
                if k == 'ret' and v is not None and outs_extra:
                    val = v
                    for (path, x0), o in zip(outs_extra, outs[len(keys) + 1:]):
                        val = obj_put(val, path, It(x0.loc, o) if isinstance(x0, It) else o)
                exits.append((cj, k, dict(st), val))
        return exits, st


def split_exits(ex, kind):
    """exits are tested in order: one of the given kind hides the later ones"""
    out, rest, hid = [], [], FALSE
    for q, k, st, v in ex:
        if k == kind:
            out.append((q, st))
            hid = or_(hid, q)
        else:
            q = and_(not_(hid), q)
            if q is not FALSE:
                rest.append((q, k, st, v))
    return out, rest


def obj_put(v, path, x):
    if not path:
        return x
    f = dict(v.f)
    k = path[0][1:]
    f[k] = obj_put(f[k], path[1:], x)
    return Obj(v.rid, f, v.base)


# ---------------------------------------------------------------- mu terms
def phis_of(t, lvl, acc, seen):
    if t.id in seen:
        return
    seen.add(t.id)
    if t.op == 'phi' and t.args[0] == lvl:
        if t not in acc:
            acc.append(t)
    for a in TM._targs(t.args):
        phis_of(a, lvl, acc, seen)


def chash(t, env, memo):
    """structural hash, commutative in + * and or eq; phi hashed by env"""
    h = memo.get(t.id)
    if h is not None:
        return h
    if t.op == 'phi' and t.id in env:
        h = env[t.id]
    else:
        xs = []
        for a in t.args:
            if isinstance(a, T):
                xs.append(chash(a, env, memo))
            elif isinstance(a, tuple):
                xs.append(hash(tuple(chash(x, env, memo) if isinstance(x, T) else (hash(tuple(str(y) if not isinstance(y, T) else chash(y, env, memo) for y in x)) if isinstance(x, tuple) else strhash(x)) for x in a)))
            else:
                xs.append(strhash(a))
        if t.op in ('+', '*', 'and', 'or', 'eq'):
            xs.sort()
        h = hash((strhash(t.op),) + tuple(xs))
    memo[t.id] = h
    return h


import zlib


def strhash(s):
    return zlib.crc32(str(s).encode())


def close_mu(lvl, phis, inits, nexts, cond):
    idx = {p.id: i for i, p in enumerate(phis)}
    n = len(phis)
    # induction variables: next = phi + constant
    j = mk('iter', lvl)
    j.attr = {'int': True, 'nn': True}
    sub_ = {}
    steps = {}
    for i, (p, x) in enumerate(zip(phis, nexts)):
        d = poly_const(TM.sub(x, p)) if x.op in ('+', 'phi') else None
        if d is not None and d != 0:
            steps[i] = d
            sub_[p] = add(inits[i], mul(const(d), j))
        elif x is p:
            sub_[p] = inits[i]
            steps[i] = Fraction(0)
    if sub_:
        nexts = [subst(x, sub_) for x in nexts]
        cond = subst(cond, sub_)
    # counter test: j != N  ->  j < N
    cond = norm_cond(cond, j)
    trip = None
    if steps:
        b = bound_of(cond, j)
        if b is not None:
            acc = []
            phis_of(b, lvl, acc, set())
            if not acc and not contains(b, lambda t: t is j):
                trip = b
    outs = []
    rest = [i for i in range(n) if i not in steps]
    # colours for canonical ordering
    env = {phis[i].id: hash((chash(inits[i], {}, {}), 7)) for i in rest}
    for _ in range(3):
        new = {}
        for i in rest:
            new[phis[i].id] = hash((env[phis[i].id], chash(nexts[i], env, {})))
        env = new
    for i in range(n):
        if i in steps:
            if steps[i] == 0:
                outs.append(inits[i])
                continue
            if trip is not None:
                tr = ite(lt(ZERO, trip), trip, ZERO) if not nonneg(trip) else trip
            else:
                tr = mu_out(lvl, None, phis, inits, nexts, cond, env, steps)
                tr.attr = {'int': True, 'nn': True}
            outs.append(add(inits[i], mul(const(steps[i]), tr)))
            continue
        outs.append(mu_out(lvl, i, phis, inits, nexts, cond, env, steps))
    return outs


def nonneg(t):
    n, d = norm(t)
    if d != TM.P1:
        return False
    return all(c >= 0 and (not m or TM._mono_nn(m)) for m, c in n.items())


def norm_cond(c, j):
    if c.op == 'not' and c.args[0].op == 'eq':
        a, b = c.args[0].args
        d = sub(a, b)
        # linear in j with coefficient +-1
        nn, dd = norm(d)
        if dd == TM.P1:
            aj = TM.atom(j)
            co = nn.get(((aj, 1),))
            if co in (1, -1) and all(m == ((aj, 1),) or all(x != aj for x, _ in m) for m in nn):
                rest = {m: -v / co for m, v in nn.items() if m != ((aj, 1),)}
                return lt(j, TM.poly_term(rest))
    if c.op == 'and':
        return and_(norm_cond(c.args[0], j), norm_cond(c.args[1], j))
    if c.op == 'lt' or c.op == 'not' and c.args[0].op == 'lt':
        b = bound_of(c, j)
        if b is not None:
            return lt(j, b)
    return c


def bound_of(c, j):
    if c.op == 'not' and c.args[0].op == 'lt':
        # not (b < a)  i.e. a <= b
        inner = c.args[0]
        n, d = norm(sub(inner.args[1], inner.args[0]))   # a - b <= 0
        if d == TM.P1:
            aj = TM.atom(j)
            co = n.get(((aj, 1),))
            if co == 1:
                rest = {m: -v for m, v in n.items() if m != ((aj, 1),)}
                if all(all(x != aj for x, _ in m) for m in rest) and all(v.denominator == 1 and all((TM.ATOMS[x].attr or {}).get('int') or TM.ATOMS[x].op == 'size' for x, _ in m) for m, v in rest.items()):
                    return add(TM.poly_term(rest), ONE)
        return None
    if c.op != 'lt':
        return None
    n, d = norm(sub(c.args[0], c.args[1]))
    if d != TM.P1:
        return None
    aj = TM.atom(j)
    co = n.get(((aj, 1),))
    if co != 1:
        return None
    rest = {m: -v for m, v in n.items() if m != ((aj, 1),)}
    if any(any(x == aj for x, _ in m) for m in rest):
        return None
    return TM.poly_term(rest)


def mu_out(lvl, i, phis, inits, nexts, cond, env, steps):
    byid = {p.id: k for k, p in enumerate(phis)}
    cone = []
    work = [cond] + ([nexts[i]] if i is not None else [])
    if i is not None:
        cone.append(i)
    while work:
        t = work.pop()
        acc = []
        phis_of(t, lvl, acc, set())
        for p in acc:
            k = byid.get(p.id)
            if k is not None and k not in cone and k not in steps:
                cone.append(k)
                work.append(nexts[k])
    head = [i] if i is not None else []
    others = sorted([k for k in cone if k != i], key=lambda k: env.get(phis[k].id, 0))
    order = head + others
    ren = {}
    for pos, k in enumerate(order):
        np = mk('phi', 'L%d' % lvl, pos)
        if phis[k].attr:
            np.attr = dict(phis[k].attr)
        ren[phis[k]] = np
    nx = tuple(subst(nexts[k], ren) for k in order)
    cd = subst(cond, ren)
    r = mk('mu', lvl, 'trip' if i is None else 'val', nx, cd, tuple(inits[k] for k in order))
    if i is not None and phis[i].attr:
        r.attr = {k: v for k, v in phis[i].attr.items() if k in ('num', 'int')}
    return r


def idiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        q = a.args[0] / b.args[0]
        return const(int(q))
    r = fn('idiv', a, b)
    r.attr = {'int': True}
    return r


def toint(v):
    if v.attr and v.attr.get('int'):
        return v
    n, d = norm(v)
    if d == TM.P1 and all(c.denominator == 1 and all(TM.ATOMS[a].attr and TM.ATOMS[a].attr.get('int') for a, _ in m) for m, c in n.items()):
        return v
    r = fn('toint', v)
    r.attr = {'int': True}
    return r


ITERS = ('__gnu_cxx::__normal_iterator<', 'boost::cb_details::iterator<')


def is_iter(t):
    return t.startswith(ITERS)
