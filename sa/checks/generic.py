"""Properties of every accumulator set: archiving, copying, and extraction as pure observation."""
from reach import *
from checks.formulas import compile_failures, ASSUME

GA = ['relations are shown for every state (arbitrary values of all mutable state) and all arguments',
      'a difference is reported only if it shows in a state consistent with the extracted transformer',
      'library models for std::vector, boost::circular_buffer, <cmath> and <algorithm> in sa/models.py']


def fin(it, c, S, key):
    """value and exceptions of an extraction, leaving the store as it was"""
    st = dict(it.st)
    v = it.term(c.get(it, S, key))
    th = c.throws(it)
    post = it.st
    it.st = st
    cond = FALSE
    for cc, _ in th:
        cond = or_(cond, cc)
    return v, cond, post


def is_range(c, k):
    """ranges are observed through their size and elements (separate getters)"""
    t = c.p.types[c.fns['get_' + k]['ret']]
    return 'iterator_range<' in t and any(g.endswith('n') and 'get_' + g in c.fns for g in ('tn', 'wn', 'vn', 'w1n'))


def args_of(c, it):
    return {n: it.fresh((n,), ti) for _, n, ti in c.fns['up']['params'][1:]}


def observations(c, it, S, steps=1):
    """{(n updates, key): (value, throws)}"""
    out = {}
    st = dict(it.st)
    for n in range(steps + 1):
        if n:
            a = {k: it.fresh((k if n == 1 else k + '0',), ti) for _, k, ti in c.fns['up']['params'][1:]}
            c.update(it, S, **a)
            c.throws(it)
        for k in c.getters():
            if is_range(c, k):
                continue
            try:
                out[(n, k)] = fin(it, c, S, k)[:2]
            except Unsupported as x:
                out[(n, k)] = x
    it.st = st
    return out


def same_obs(rep, R, rule, where, oa, ob, kind):
    for key in oa:
        n, k = key
        a, b = oa[key], ob.get(key)
        r = '%s: %s%s' % (R.c.name, rule % k, ' after one more sample' if n else '')
        if isinstance(a, Exception) or isinstance(b, Exception) or b is None:
            rep.unk(r, 'not evaluated: %s' % (a if isinstance(a, Exception) else b), kind)
            continue
        same_reach(rep, R, r, where, a[0], b[0], [not_(a[1])] if a[1] is not FALSE else [], kind)


# ---------------------------------------------------------------- archiving
def wh(c, fn, it):
    w = []
    for i in it.nfn:
        f = c.p.functions[i]
        fl = c.p.files[f['file']]
        if fl.startswith('/repo/') and f['name'] in fn:
            w.append('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))
    return '; '.join(sorted(set(w))[:8]) or 'set %s' % c.name


def archive(rep, R):
    c = R.c
    it = c.interp()
    S = R.state(it)
    before = leaf_terms(it, it.st[S[0]])
    it.invoke(c.fns['save'], None, c.args(it, 'save', [Ref(S)]))
    after = leaf_terms(it, it.st[S[0]])
    rep.see(it)
    where = wh(c, ('serialize',), it)
    ch = [p for p in before if before[p] is not after.get(p)]
    if ch:
        rep.bad('%s: saving leaves the set unchanged' % c.name, where, 'saving modifies %s' % ', '.join(R.name(p) for p in ch[:4]), 'save is pure')
    else:
        rep.ok('save is pure')
    saves = [e for e in it.events if e[0] == 'save']
    tape = []
    for e in saves:
        if e[4]:
            raise Unsupported('conditional archive operation')
        tape.append((e[2], e[3]))
    it2 = c.interp()
    D = c.make(it2)
    c.throws(it2)

    def feed(i2, k, l, ty):
        if k < len(tape):
            v, t = tape[k]
            return v
        return None
    it2.tape = feed
    it2.invoke(c.fns['load'], None, c.args(it2, 'load', [Ref(D)]))
    rep.see(it2)
    loads = [e for e in it2.events if e[0] == 'load']
    r = '%s: loading reads what saving wrote' % c.name
    bare = lambda t: t.replace('const ', '').strip()
    if len(loads) != len(saves) or any(bare(a[3]) != bare(b[3]) for a, b in zip(saves, loads)):
        rep.bad(r, where, 'writes [%s], reads [%s]' % (', '.join(short(e[3]) for e in saves)[:200], ', '.join(short(e[3]) for e in loads)[:200]), 'archive layout')
        return
    rep.ok('archive layout')
    res = leaf_terms(it2, it2.st[D[0]])
    diff = [p for p in before if res.get(p) is not before[p]]
    if not diff:
        rep.ok('every field restored')
        return
    oa = observations(c, it, S)
    ob = observations(c, it2, D)
    n0 = len(rep.viol)
    same_obs(rep, R, '%s of a restored set', where, ob, oa, 'restored observation')
    for v in rep.viol[n0:]:
        v['what'] = ('not restored: %s. ' % ', '.join(R.name(p) for p in diff[:6])) + v['what']


def run_archive(cases, bad, arg):
    rep = Rep()
    for n, errs in bad.items():
        rep.bad('%s: the set can be archived' % n, errs[0] if errs else n, 'archiving the set of witness %s does not compile: %s' % (n, ' | '.join(errs)[:500]), 'compiles')
    for c in cases:
        rep.units += 1
        try:
            with limited(60):
                archive(rep, Reach(c))
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
    return rep


# ---------------------------------------------------------------- extraction
def purity(rep, R):
    c = R.c
    base = c.interp()
    S = R.state(base)
    st0 = dict(base.st)
    keys = [k for k in c.getters() if k not in R.unsup and not is_range(c, k)]
    alone = {}
    for k in keys:
        base.st = dict(st0)
        alone[k] = fin(base, c, S, k)
    base.st = dict(st0)
    a = args_of(c, base)
    c.update(base, S, **a)
    c.throws(base)
    st1 = dict(base.st)
    later = {}
    for k in keys:
        base.st = dict(st1)
        later[k] = fin(base, c, S, k)
    rep.see(base)
    where = where_of(c, base)
    for k1 in keys:
        ch = [p for p in R.gets.get(k1, {})]
        if not ch:
            rep.ok('extractor writes no state')
            continue
        c1 = not_(alone[k1][1])
        c1 = [c1] if c1 is not TRUE else []
        post = alone[k1][2]
        for k2 in keys:
            base.st = dict(post)
            v = fin(base, c, S, k2)
            r = '%s: extracting %s does not change %s' % (c.name, k1, k2)
            same_reach(rep, R, r, where, v[0], alone[k2][0], c1 + ([not_(alone[k2][1])] if alone[k2][1] is not FALSE else []), 'extraction does not disturb extraction')
        base.st = dict(post)
        c.update(base, S, **a)
        c.throws(base)
        st2 = dict(base.st)
        for k2 in keys:
            base.st = dict(st2)
            v = fin(base, c, S, k2)
            r = '%s: extracting %s does not change %s after the next sample' % (c.name, k1, k2)
            same_reach(rep, R, r, where, v[0], later[k2][0], c1 + ([not_(later[k2][1])] if later[k2][1] is not FALSE else []), 'extraction does not disturb accumulation')


def run_purity(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        rep.units += 1
        try:
            with limited(60):
                R = Reach(c)
                for k, x in R.unsup.items():
                    rep.unk('%s: %s' % (c.name, k), x)
                purity(rep, R)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
    return rep


# ---------------------------------------------------------------- copies
def copies(rep, R):
    c = R.c
    for fn_ in ('cc', 'cp'):
        it = c.interp()
        S = R.state(it)
        before = leaf_terms(it, it.st[S[0]])
        if fn_ == 'cc':
            D = it.root(it.invoke(c.fns['cc'], None, [Ref(S)]), 'S')
        else:
            D = it.root(Obj(c.rid, {}, ('D',)), 'S')
            it.invoke(c.fns['cp'], None, [Ref(S), Ref(D)])
        rep.see(it)
        what = 'copy construction' if fn_ == 'cc' else 'assignment'
        where = wh(c, ('operator=',) + tuple(c.p.functions[i]['name'] for i in it.nfn if c.p.functions[i].get('ctor')), it)
        after = leaf_terms(it, it.st[S[0]])
        ch = [p for p in before if before[p] is not after.get(p)]
        if ch:
            rep.bad('%s: %s leaves the source unchanged' % (c.name, what), where, 'modifies %s' % ', '.join(R.name(p) for p in ch[:4]), 'source unchanged')
        else:
            rep.ok('source unchanged')
        res = leaf_terms(it, it.st[D[0]])
        diff = [p for p in before if res.get(p) is not before[p]]
        if not diff:
            rep.ok('every field copied')
        else:
            it2 = c.interp()
            S2 = R.state(it2)
            oa = observations(c, it2, S2)
            ob = observations(c, it, D)
            n0 = len(rep.viol)
            same_obs(rep, R, '%s of a copy (' + what + ')', where, ob, oa, 'copied observation')
            for v in rep.viol[n0:]:
                v['what'] = ('not copied: %s. ' % ', '.join(R.name(p) for p in diff[:6])) + v['what']
        # independence
        a = args_of(c, it)
        c.update(it, D, **a)
        c.throws(it)
        now = leaf_terms(it, it.st[S[0]])
        ch = [p for p in before if before[p] is not now.get(p)]
        if ch:
            rep.bad('%s: feeding a copy leaves the original unchanged (%s)' % (c.name, what), where, 'an update of the copy modifies %s of the original' % ', '.join(R.name(p) for p in ch[:4]), 'independent')
        else:
            rep.ok('independent')


def alias(rep, R):
    """a copy taken from a set with a real history does not refer to the storage of its source"""
    c = R.c
    for fn_ in ('cc', 'cp'):
        obs = []
        for disturb in (False, True):
            it = c.interp()
            S = c.make(it)
            c.update(it, S)
            c.throws(it)
            for k in c.getters():
                if not is_range(c, k):
                    try:
                        c.get(it, S, k)
                    except Unsupported:
                        pass
                    c.throws(it)
            if fn_ == 'cc':
                D = it.root(it.invoke(c.fns['cc'], None, [Ref(S)]), 'S')
            else:
                D = c.make(it)
                it.invoke(c.fns['cp'], None, [Ref(S), Ref(D)])
            c.throws(it)
            if disturb:
                c.update(it, S, **{n: it.fresh((n + '0',), ti) for _, n, ti in c.fns['up']['params'][1:]})
                c.throws(it)
            obs.append(observations(c, it, D))
        what = 'copy construction' if fn_ == 'cc' else 'assignment'
        where = wh(c, ('operator=',) + tuple(c.p.functions[i]['name'] for i in it.nfn if c.p.functions[i].get('ctor')), it)
        for key in obs[0]:
            a, b = obs[0][key], obs[1][key]
            r = '%s: %s of a copy does not depend on later updates of the source (%s)' % (c.name, key[1], what)
            if isinstance(a, Exception) or isinstance(b, Exception):
                continue
            if a[0] is b[0]:
                rep.ok('source and copy share no storage')
            else:
                rep.same(r, where, b[0], a[0], kind='source and copy share no storage')


def run_copies(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        rep.units += 1
        try:
            with limited(60):
                R = Reach(c)
                copies(rep, R)
            with limited(25):
                alias(rep, R)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
    return rep


RULE = {'run_archive': 'for an arbitrary state, the archive operations of saving are replayed into a newly constructed set; every field, or else every observation now and after another sample, must have the value number of the original; a restored set with droppable features keeps and freezes exactly what the original would, for every order of drops before and after',
        'run_purity': 'value number of every observation, now and after another sample, with and without a preceding extraction',
        'run_copies': 'every field, or else every observation, of a copy has the value number of the original; the original is unchanged by the copy and by updates of the copy; a copy of a set with droppable features keeps and freezes exactly what the original would, for every order of drops before and after'}


def main(pid, which, min_obl=150):
    t0 = time.time()
    rep = Rep()
    for r in pmap('checks.generic', which, catalog.E, size=2):
        rep.merge(r)
    hows = {'run_archive': ['archiving and restoring'], 'run_copies': ['copy construction', 'assignment']}.get(which)
    if hows:
        import checks.drop as DR
        rep.merge(DR.carried(hows))
    return finish(pid, rep, t0, RULE[which], assumptions=GA, min_obl=min_obl)
