"""Obligations, verdicts and evidence shared by the checks."""
import os, sys, json, time, hashlib
from harness import *
import evalt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class limited:
    """give up on one unit after some seconds (the unit is then inconclusive)"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        import signal

        def h(*a):
            raise TimeoutError('unit given up after %d s' % self.s)
        try:
            self.old = signal.signal(signal.SIGALRM, h)
            self.left = signal.alarm(self.s)
            self.t = time.time()
            self.on = True
        except ValueError:
            self.on = False

    def __exit__(self, *a):
        import signal
        if self.on:
            signal.alarm(0)
            if self.left:
                # an enclosing limit goes on
                signal.signal(signal.SIGALRM, self.old)
                signal.alarm(max(1, int(self.left - (time.time() - self.t))))
        return False


class Rep:
    """result of one unit of work; picklable"""
    confirm = None

    def __init__(self):
        self.obl = 0
        self.proved = 0
        self.viol = []
        self.unknown = []
        self.notes = []
        self.fns = set()
        self.units = 0
        self.kinds = {}

    def merge(self, o):
        self.obl += o.obl
        self.proved += o.proved
        self.viol += o.viol
        self.unknown += o.unknown
        self.notes += o.notes
        self.fns |= o.fns
        self.units += o.units
        for k, v in o.kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v

    def kind(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def ok(self, kind='obligation'):
        self.obl += 1
        self.proved += 1
        self.kind(kind)

    def bad(self, rule, where, what, kind='obligation', **kw):
        self.obl += 1
        self.kind(kind)
        self.viol.append(dict(rule=rule, where=where, what=what, **kw))

    def unk(self, rule, why, kind='obligation'):
        self.obl += 1
        self.kind(kind)
        self.unknown.append('%s: %s' % (rule, why[:300]))

    def see(self, it):
        """record the library functions an evaluation went through"""
        for i in it.nfn:
            f = it.p.functions[i]
            fl = it.p.files[f['file']]
            if fl.startswith('/repo/'):
                self.fns.add('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))

    def same(self, rule, where, a, b, assume=(), given=None, kind='obligation', trials=400, strict=False):
        """obligation: value numbers a (of the code) and b (required) agree whenever `assume` holds"""
        try:
            ex = []
            if equal(a, b, assume, budget=[3000], explain=ex):
                self.ok(kind)
                return True
        except TM.Budget:
            ex = []
        except RecursionError:
            ex = []
        s, used = evalt.separate(a, b, assume, given, trials, trail=[d for _, d in ex[0][0]] if ex else ())
        if s is not None and self.confirm is not None and not self.confirm(a, b, assume):
            self.unk(rule, 'the state has members that the check does not know; no difference in the states that a history reaches', kind)
            return None
        if s is not None:
            self.bad(rule, where, 'value of the code: %s; required: %s' % (show(a)[:400], show(b)[:400]), kind,
                     case=[str(c[0])[:200] for c in (ex[0][0] if ex else [])][:6], separated_by=s[0][:900], code_value=str(evalt.pv(s[1]))[:200], required_value=str(evalt.pv(s[2]))[:200])
            return False
        self.unk(rule, 'no normal form and no separating valuation (%d usable)' % used, kind)
        return None

    def truth(self, rule, where, c, assume=(), given=None, kind='obligation', trials=400):
        return self.same(rule, where, c, TRUE, assume, given, kind, trials)


def impl_fns(case, it, names=('result', 'operator()')):
    """functions of accumulator implementations evaluated by an interpretation"""
    out = []
    for i in it.nfn:
        f = case.p.functions[i]
        fl = case.p.files[f['file']]
        if fl.startswith('/repo/') and '/statistics/' in fl and f['name'] in names:
            out.append('%s:%d %s' % (fl[6:], f['line'], f['q'].replace('boost::accumulators::', '')))
    return sorted(set(out))


def where_of(case, *its):
    w = []
    for it in its:
        for x in impl_fns(case, it):
            if x not in w:
                w.append(x)
    return '; '.join(w[:6]) or 'set %s' % case.name


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):])
    return out


def finish(pid, rep, t0, rule, level='other', assumptions=(), min_obl=1, extra=None):
    """write the evidence, print the verdict, return the exit status"""
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    kf = known_findings(pid)
    viol, known = [], []
    for v in rep.viol:
        key = v['rule']
        if any(k.split(' :: ')[0] == key for k in kf):
            known.append(v)
        else:
            viol.append(v)
    cov = dict(explanation=rule, obligations=rep.obl, discharged=rep.proved, inconclusive=len(rep.unknown),
               units_analysed=rep.units, functions_analysed=len(rep.fns), by_kind=rep.kinds,
               sample_functions=sorted(rep.fns)[:40], inconclusive_examples=rep.unknown[:40], notes=rep.notes[:40])
    if extra:
        cov.update(extra)
    ev = dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=list(assumptions),
              violations=len(viol), violation_list=viol[:60], known_findings=[v['rule'] for v in known])
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for v in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, v['rule']))
    for n in rep.unknown[:8]:
        print('inconclusive: %s' % n[:300])
    print('%s: %d obligations, %d discharged, %d inconclusive, %d violations, %d library functions, %.0f s' % (
        pid, rep.obl, rep.proved, len(rep.unknown), len(viol), len(rep.fns), time.time() - t0))
    if rep.obl < min_obl:
        print('BROKEN: only %d obligations (expected at least %d)' % (rep.obl, min_obl))
        return 2
    if viol:
        seen = set()
        for v in viol[:60]:
            k = (v['rule'], v['where'])
            if k in seen:
                continue
            seen.add(k)
            print('  rule: %s\n    at: %s\n    %s' % (v['rule'], v['where'], v['what'][:600]))
            if v.get('separated_by'):
                print('    e.g. %s -> code %s, required %s' % (v['separated_by'][:400], v.get('code_value'), v.get('required_value')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
