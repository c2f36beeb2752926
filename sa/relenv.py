"""Observations of a catalogue entry before and after one update, for an arbitrary state."""
from core import *


class Env:
    def __init__(self, case, rep):
        self.c = case
        self.rep = rep
        self._b = {}
        self._a = {}
        self._f = {}
        self._i = {}
        self.ba = None
        self.fa = None
        self.ia = None
        self.its = []
        ps = {n for _, n, _ in case.fns['up']['params']}
        it = case.interp()
        self.args = {}
        for _, n, ti in case.fns['up']['params'][1:]:
            self.args[n] = it.fresh((n,), ti)
        self.x = self.args.get('x')
        self.w = self.args.get('w')
        self.v = self.args.get('v')

    def _get(self, it, S, st, key):
        it.st = dict(st)
        r = it.term(self.c.get(it, S, key))
        self.thrown = self.c.throws(it)
        return r

    def B(self, key):
        if key not in self._b:
            if self.ba is None:
                it = self.c.interp()
                S = self.c.state(it)
                self.ba = (it, S, dict(it.st))
                self.its.append(it)
            self._b[key] = self._get(*self.ba, key)
        return self._b[key]

    def A(self, key):
        if self.fa is None:
            it = self.c.interp()
            S = self.c.state(it)
            self.c.update(it, S, **self.args)
            self.c.throws(it)
            self.fa = (it, S, dict(it.st))
            self.its.append(it)
        if key not in self._a:
            self._a[key] = self._get(*self.fa, key)
        return self._a[key]

    def I(self, key):
        """on a freshly constructed set"""
        if key not in self._i:
            if self.ia is None:
                it = self.c.interp()
                S = self.c.make(it)
                self.c.throws(it)
                self.ia = (it, S, dict(it.st))
                self.its.append(it)
            self._i[key] = self._get(*self.ia, key)
        return self._i[key]

    def F(self, key):
        """after the first update of a freshly constructed set"""
        if key not in self._f:
            if not hasattr(self, 'fi'):
                it = self.c.interp()
                S = self.c.make(it)
                self.c.update(it, S, **self.args)
                self.c.throws(it)
                self.fi = (it, S, dict(it.st))
                self.its.append(it)
            self._f[key] = self._get(*self.fi, key)
        return self._f[key]

    def where(self):
        return where_of(self.c, *self.its)
