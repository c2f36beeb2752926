"""Droppable features: what is still needed keeps being updated, what is not is frozen."""
from checks.framework import *
import checks.framework as FWK
import checks.generic as GN
import itertools

# user features; d: droppable
SETS = ['dA', 'dC', 'dE', 'dH', 'dB,dC', 'dC,dB', 'dB,dC,dA', 'dE,dA,dC', 'dA,C', 'C,dA', 'dC,A', 'A,dC', 'dG,dB', 'dH,B', 'dD,dE', 'dE,dG', 'E,dG', 'dG,E', 'dB,C,dG', 'dB2,dC', 'dC,dB2', 'dC,B2', 'C,dB2', 'dY,dB2,dZ', 'dH,dA,dB,dC', 'dL3,dL0', 'dL0,dL4,M1']


def parse_set(s):
    out = []
    for f in s.split(','):
        d = f.startswith('d')
        out.append((f[1:] if d else f, d))
    return out


def feat(f):
    return 'B' if f == 'B2' else f


def reach_from(fs, prov):
    seen = set()
    todo = [feat(f) for f in fs]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += DEPS[prov[f]]
    return seen


def ents():
    out = []
    for i, src in enumerate(SETS):
        fs = parse_set(src)
        prov = closure([f for f, _ in fs])
        for sfx in ('', 'w'):
            L = ['typedef accumulator_set<double, stats<%s >%s > S;' % (', '.join('droppable<ptag::%s>' % f if d else 'ptag::' + f for f, d in fs), ', double' if sfx else '')]
            L.append('S mk() { return S(); } void up(S &s, double const &x) { s(x%s); }' % (', weight = 2.0' if sfx else ''))
            L.append('S mk1(double const &x) { return S(x); } S mk2(double const &x) { return S(sample = x); } S mk3(double const &x) { return S(sample = x, k1 = x); } S mk4(double const &x) { return S(x, k1 = x, k2 = x); }')
            L.append('void cp(S const &s, S &t) { t = s; } S cc(S const &s) { return S(s); } void save(S &s, sa_oarchive &ar) { s.serialize(ar, 0); } void load(S &s, sa_iarchive &ar) { s.serialize(ar, 0); }')
            for f, d in fs:
                if d:
                    L.append('void drop_%s(S &s) { s.drop<ptag::%s>(); }' % (f, f))
            for f in prov:
                L.append('double get_%s(S const &s) { return extract_result<ptag::%s>(s); } double get_%s_x(S const &s) { return find_accumulator<ptag::%s>(s).x; }' % (f, f, f, f))
            out.append(Raw('dr%d%s' % (i, sfx), '\n'.join(L), (src, fs, prov)))
    return out


def where(c, it):
    w = []
    for i in it.nfn:
        f = c.p.functions[i]
        fl = c.p.files[f['file']]
        if fl.startswith('/repo/') and ('droppable' in fl or f['name'] in ('drop',)) and f['name'] in ('operator()', 'drop', 'add_ref', 'is_dropped'):
            w.append('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))
    return '; '.join(sorted(set(w))[:6]) or 'witness ' + c.name


def states(c, it, mk):
    """constructed set whose update counters are arbitrary"""
    a = c.args(it, mk, [])
    S = it.root(it.invoke(c.fns[mk], None, a), 'S')
    c.throws(it)
    for p in leaf_terms(it, it.st[S[0]]):
        if p[-1][2] == 'hits':
            v = sym('hits', str(len(p)), str(p[-1][1]))
            v.attr = {'num': True, 'ty': 'double'}
            it.write((S[0], S[1] + p), v)
    return S


def refcounts(rep, c, info):
    src, fs, prov = info
    users = [f for f, d in fs]
    drops = [f for f, d in fs if d]
    seqs = []
    for n in range(len(drops) + 1):
        seqs += list(itertools.permutations(drops, n))
    # a longer sequence covers its prefixes
    seqs = [s for s in seqs if len(s) == len(drops)]
    if 'H' in users:
        seqs = seqs[:1] + seqs[-1:] if len(seqs) > 2 else seqs
    for seq in seqs:
        for mk in (('mk', 'mk1', 'mk2', 'mk3', 'mk4') if len(drops) <= 1 and 'H' not in users else ('mk',)):
            it = c.interp()
            S = states(c, it, mk)
            gone = []
            for k in range(len(seq) + 1):
                if k:
                    b0 = {f: it.term(c.get(it, S, f)) for f in prov}
                    it.invoke(c.fns['drop_' + seq[k - 1]], None, [Ref(S)])
                    c.throws(it)
                    gone.append(seq[k - 1])
                    for f in prov:
                        rep.same('%s <%s>: dropping %s leaves the value of %s' % (c.name, src, seq[k - 1], f), where(c, it), it.term(c.get(it, S, f)), b0[f], kind='drop keeps values')
                live = reach_from([f for f in users if f not in gone], prov)
                b = {f: it.term(c.get(it, S, f)) for f in prov}
                bx = {f: it.term(c.get(it, S, f + '_x')) for f in prov}
                x = val('x%d' % k)
                c.update(it, S, x=x)
                c.throws(it)
                how = 'after dropping %s' % ', '.join(gone) if gone else 'before any drop'
                for f in prov:
                    a = it.term(c.get(it, S, f))
                    if f in live:
                        rep.same('%s <%s>: %s keeps being updated %s (%s)' % (c.name, src, f, how, mk), where(c, it), a, b[f] + 1, kind='still needed')
                        rep.same('%s <%s>: %s receives the sample %s (%s)' % (c.name, src, f, how, mk), where(c, it), it.term(c.get(it, S, f + '_x')), x, kind='still needed')
                    else:
                        rep.same('%s <%s>: %s is frozen %s (%s)' % (c.name, src, f, how, mk), where(c, it), a, b[f], kind='no longer needed')
                        rep.same('%s <%s>: %s ignores the sample %s (%s)' % (c.name, src, f, how, mk), where(c, it), it.term(c.get(it, S, f + '_x')), bx[f], kind='no longer needed')
            rep.see(it)


def transfer(c, it, S, how):
    if how == 'copy construction':
        D = it.root(it.invoke(c.fns['cc'], None, [Ref(S)]), 'S')
    elif how == 'assignment':
        D = c.make(it)
        it.invoke(c.fns['cp'], None, [Ref(S), Ref(D)])
    else:
        n0 = len(it.events)
        it.invoke(c.fns['save'], None, c.args(it, 'save', [Ref(S)]))
        tape = []
        for e in it.events[n0:]:
            if e[0] == 'save':
                if e[4]:
                    raise Unsupported('conditional archive operation')
                tape.append(e[2])
        D = c.make(it)
        n1 = sum(1 for e in it.events if e[0] == 'load')
        it.tape = lambda i2, k, l, ty: tape[k - n1] if k - n1 < len(tape) else None
        it.invoke(c.fns['load'], None, c.args(it, 'load', [Ref(D)]))
    c.throws(it)
    return D


def carry(rep, c, info, hows):
    """a set obtained from another one drops and keeps exactly what the other one would"""
    src, fs, prov = info
    users = [f for f, d in fs]
    drops = [f for f, d in fs if d]
    seqs = list(itertools.permutations(drops))
    if len(seqs) > 6:
        seqs = seqs[:3] + seqs[-3:]
    for how in hows:
        for seq in seqs:
            for k0 in range(len(seq) + 1):
                it = c.interp()
                S = states(c, it, 'mk')
                gone = []
                D = None
                for k in range(len(seq) + 1):
                    if k:
                        it.invoke(c.fns['drop_' + seq[k - 1]], None, [Ref(S)])
                        c.throws(it)
                        gone.append(seq[k - 1])
                    if k < k0:
                        continue
                    if k == k0:
                        D = transfer(c, it, S, how)
                        b0 = {f: it.term(c.get(it, S, f)) for f in prov}
                        for f in prov:
                            rep.same('%s <%s>: %s preserves the value of %s' % (c.name, src, how, f), wherec(c, it), it.term(c.get(it, D, f)), b0[f], kind='values carried over')
                        S = D
                    live = reach_from([f for f in users if f not in gone], prov)
                    b = {f: it.term(c.get(it, S, f)) for f in prov}
                    c.update(it, S, x=val('x%d' % k))
                    c.throws(it)
                    at = 'with %s dropped before and %s after it' % (', '.join(seq[:k0]) or 'nothing', ', '.join(seq[k0:k]) or 'nothing')
                    for f in prov:
                        a = it.term(c.get(it, S, f))
                        if f in live:
                            rep.same('%s <%s>: after %s, %s keeps being updated %s' % (c.name, src, how, f, at), wherec(c, it), a, b[f] + 1, kind='still needed')
                        else:
                            rep.same('%s <%s>: after %s, %s is frozen %s' % (c.name, src, how, f, at), wherec(c, it), a, b[f], kind='no longer needed')
                rep.see(it)


def wherec(c, it):
    w = []
    for i in it.nfn:
        f = c.p.functions[i]
        fl = c.p.files[f['file']]
        if fl.startswith('/repo/') and 'droppable' in fl and (f['name'] in ('drop', 'is_dropped', 'serialize', 'operator=') or f.get('ctor')):
            w.append('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))
    return '; '.join(sorted(set(w))[:6]) or 'witness ' + c.name


def work_carry(cases, bad, arg):
    infos, hows = arg
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        rep.units += 1
        try:
            with limited(90):
                carry(rep, c, infos[c.name], hows)
        except Exception as x:
            rep.unk(c.name, 'not evaluated: %r' % x)
    return rep


def carried(hows):
    es = [e for e in ents() if len(e.info[1]) < 4 and not e.name.endswith('w')]
    rep = Rep()
    for r in pmap('checks.drop', 'work_carry', es, size=3, arg=({e.name: e.info for e in es}, hows), pre=FWK.PRE):
        rep.merge(r)
    return rep


# ---------------------------------------------------------------- real features
REAL = [e for e in catalog.E if not e.name.endswith(('_i', '_m')) and len(e.feats) == 1 and '(' not in e.feats[0] and not ({'minmax'} & e.tags)]
KEEP = ['count', 'mean', 'variance', 'moment3', 'kurtosis', 'skewness', 'covariance', 'varmean', 'min', 'psq', 'pcd', 'density', 'median', 'eps', 'ltail', 'rtail', 'rtailv', 'ltailv', 'rtq', 'rnctm', 'rpot', 'lpotp',
        'wcount', 'wsum', 'wmean', 'wvariance', 'wmoment2', 'wkurtosis', 'wcovariance', 'wvarmean', 'wpsq', 'wpcd', 'wdensity', 'wmedian', 'weps', 'wrtail', 'wltailw', 'wrtailw', 'wrtailv', 'wltq', 'wrnctm', 'wrpot']


def real_entries():
    out = []
    for e in catalog.E:
        if e.name in KEEP:
            e2 = catalog.Entry('dp_' + e.name, ['droppable<%s >' % f for f in e.feats], e.sample, e.weight, e.ctor, e.call, e.get, e.params, e.ctor_params, e.res_params, e.tags, 'void dummy();')
            f0 = e.feats[0]
            src = e2.source(ser=False).rstrip()
            assert src.endswith('} }')
            src = src[:-3] + 'void drop_it(S &s) { s.drop<%s >(); }\n} }' % f0
            out.append(Src(e2.name, src))
            out.append(Src(e.name, e.source(ser=False)))
    return out


class Src:
    def __init__(self, name, src):
        self.name, self.src = name, src

    def source(self, ser=True):
        return self.src


def match_leaves(a, b):
    """leaf paths of two sets paired by the names of their fields, wrappers disregarded"""
    def key(p):
        return tuple(x[2] for x in p if x[2] != 'ref_count_')
    ka, kb = {}, {}
    for p in a:
        ka.setdefault(key(p), []).append(p)
    for p in b:
        if p[-1][2] != 'ref_count_':
            kb.setdefault(key(p), []).append(p)
    out = []
    for k in kb:
        if len(ka.get(k, [])) != 1 or len(kb[k]) != 1:
            return None
        out.append((kb[k][0], ka[k][0]))
    return out if len(out) == len(a) else None


def real(rep, d, n):
    """droppable set d and its plain counterpart n"""
    from reach import Reach
    # same behaviour while nothing is dropped
    itn = n.interp()
    R = Reach(n)
    N = R.state(itn)
    ln = leaf_terms(itn, itn.st[N[0]])
    it = d.interp()
    D = d.make(it)
    d.throws(it)
    ld = leaf_terms(it, it.st[D[0]])
    m = match_leaves(ln, ld)
    if m is None:
        rep.unk(d.name, 'the layouts of the droppable and the plain set do not correspond')
        return
    for pd, pn in m:
        v = itn.read((N[0], N[1] + pn))
        if isinstance(v, (Obj, It)):
            raise Unsupported('leaf')
        it.write((D[0], D[1] + pd), v)
    od = GN.observations(d, it, D)
    on = GN.observations(n, itn, N)
    w = where(d, it)
    for key in on:
        a, b = od.get(key), on[key]
        r = '%s: %s is what the plain feature gives%s' % (d.name, key[1], ' after one more sample' if key[0] else '')
        if isinstance(a, Exception) or isinstance(b, Exception) or a is None:
            rep.unk(r, 'not evaluated', 'droppable = plain')
            continue
        if a[0] is b[0]:
            rep.ok('droppable = plain')
        else:
            GN.same_reach(rep, R, r, w, a[0], b[0], [not_(a[1])] if a[1] is not FALSE else [], 'droppable = plain')
    # frozen after the drop
    o0 = GN.observations(d, it, D, steps=0)
    it.invoke(d.fns['drop_it'], None, [Ref(D)])
    d.throws(it)
    o1 = GN.observations(d, it, D)
    rep.see(it)
    w = where(d, it)
    for (k, key), b in o1.items():
        a = o0[(0, key)]
        r = '%s: %s is frozen by the drop%s' % (d.name, key, ' and ignores further samples' if k else '')
        if isinstance(a, Exception) or isinstance(b, Exception):
            rep.unk(r, 'not evaluated', 'frozen')
            continue
        if a[0] is b[0]:
            rep.ok('frozen')
        else:
            GN.same_reach(rep, R, r, w, b[0], a[0], [not_(a[1])] if a[1] is not FALSE else [], 'frozen')


def work3(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    by = {c.name: c for c in cases}
    for c in cases:
        try:
            with limited(90):
                if c.name.startswith('dp_'):
                    if c.name[3:] in by:
                        rep.units += 1
                        real(rep, c, by[c.name[3:]])
                elif c.name in arg:
                    rep.units += 1
                    refcounts(rep, c, arg[c.name])
        except Exception as x:
            import traceback
            rep.unk(c.name, 'not evaluated: %r %s' % (x, traceback.format_exc()[-200:]))
    return rep


def main(pid):
    t0 = time.time()
    rep = Rep()
    es = ents()
    for r in pmap('checks.drop', 'work3', es, size=3, arg={e.name: e.info for e in es}, pre=FWK.PRE):
        rep.merge(r)
    for r in pmap('checks.drop', 'work3', real_entries(), size=4, arg={}, pre=FWK.PRE):
        rep.merge(r)
    return finish(pid, rep, t0, 'reference-count typestate: for every order of drops, the update counters of probe accumulators advance exactly for the features reachable from a requested feature that is not dropped; droppable and plain variants of real features have equal value numbers until dropped and constant ones afterwards',
                  assumptions=FW_ASSUME[:1] + GN.GA, min_obl=800)
