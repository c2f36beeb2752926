"""Evaluation of catalogue entries over value numbers."""
import sys, os, traceback, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import build, catalog
from prog import Prog, strip, is_ref, short, split_targs
import interp as I
from interp import Interp, Obj, Ref, It, Frame, Unsupported
from terms import *
import terms as TM


class Case:
    """one catalogue entry in a resolved program"""

    def __init__(self, prog, name):
        self.p = prog
        self.name = name
        self.fns = {}
        pre = 'witness::%s::' % name
        for q, fl in prog.by_q.items():
            if q.startswith(pre) and q.count('::') == 2:
                for f in fl:
                    if 'body' in f:
                        self.fns[q[len(pre):]] = f
        if 'up' not in self.fns:
            raise build.BrokenAnalysis('witness %s has no update function' % name)
        self.set_type = self.fns['up']['params'][0][2]
        self.rid = prog.rec_of(self.set_type)

    def interp(self, hooks=None):
        it = Interp(self.p, hooks)
        it.fr = Frame({}, None, None)
        return it

    def state(self, it, name='S'):
        return it.root(Obj(self.rid, {}, (name,)), 'S')

    def args(self, it, fname, first, given=None, skip=1):
        """fresh symbolic arguments for the remaining parameters"""
        given = given or {}
        out = list(first)
        for pid, nm, ti in self.fns[fname]['params'][len(first):]:
            v = given.get(nm)
            if v is None:
                v = it.fresh((nm,), ti)
            if is_ref(self.p.types[ti]):
                out.append(Ref(it.root(v)))
            else:
                out.append(v)
        return out

    def make(self, it, **given):
        v = it.invoke(self.fns['mk'], None, self.args(it, 'mk', [], given))
        return it.root(v, 'S')

    def update(self, it, S, **given):
        it.invoke(self.fns['up'], None, self.args(it, 'up', [Ref(S)], given))

    def get(self, it, S, key, **given):
        f = self.fns['get_' + key]
        v = it.invoke(f, None, self.args(it, 'get_' + key, [Ref(S)], given))
        if isinstance(v, Ref) and is_ref(self.p.types[f['ret']]):
            v = it.read(v.loc)
        return v

    def getters(self):
        return [k[4:] for k in self.fns if k.startswith('get_')]

    def throws(self, it):
        t = [(c, v) for c, k, s, v in it.fr.pending if k == 'throw']
        it.fr.pending = []
        return t


def chunks(entries, size):
    return [entries[i:i + size] for i in range(0, len(entries), size)]


def source_of(entries, ser=True, pre=None):
    return (pre or '#include "common.hpp"\n') + '\n'.join(e.source(ser=ser) for e in entries) + '\n'


def load_cases(entries, ser=True, tag='w', pre=None):
    """parse a chunk; entries that do not compile are isolated -> (cases, {name: errors})"""
    path, err = build.parse(tag, source_of(entries, ser, pre))
    if path is not None:
        p = Prog(path)
        return [Case(p, e.name) for e in entries], {}
    if len(entries) == 1:
        return [], {entries[0].name: build.first_errors(err) or [err[-300:]]}
    cs, bad = [], {}
    h = len(entries) // 2
    for part in (entries[:h], entries[h:]):
        a, b = load_cases(part, ser, tag, pre)
        cs += a
        bad.update(b)
    return cs, bad


def _work(a):
    fnname, mod, ents, ser, tag, arg, pre = a
    import importlib
    m = importlib.import_module(mod)
    try:
        cases, bad = load_cases(ents, ser, tag, pre)
        return getattr(m, fnname)(cases, bad, arg)
    except Exception:
        return ('EXC', traceback.format_exc())


def pmap(mod, fnname, entries, size=8, ser=True, tag='w', arg=None, procs=8, pre=None):
    """run mod.fnname(cases, bad, arg) over chunks of entries in parallel"""
    import multiprocessing as mp
    build.ensure_tool()
    build.repo_hash()
    jobs = [(fnname, mod, c, ser, tag, arg, pre) for c in chunks(entries, size)]
    with mp.get_context('fork').Pool(procs, maxtasksperchild=1) as pool:
        res = pool.map(_work, jobs, chunksize=1)
    for r in res:
        if isinstance(r, tuple) and r and r[0] == 'EXC':
            raise build.BrokenAnalysis(r[1])
    return res
