"""Accumulator sets are independent of each other and own their data: inventory of static storage and of the members of every accumulator."""
from core import *
from checks.formulas import compile_failures
import catalog, json

HEADERS = '''#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#include <complex>
#include <valarray>
#include <vector>
'''


def headers():
    out = []
    for r, d, f in os.walk(build.REPO + '/include'):
        for x in f:
            h = os.path.relpath(os.path.join(r, x), build.REPO + '/include')
            if x.endswith('.hpp') and '/numeric/detail/' not in h:
                out.append(h)
    return sorted(out)



VIEWS = ('shared_ptr<', 'weak_ptr<', 'reference_wrapper<', 'iterator_range<', 'string_view', 'std::span<', '_iterator<', '::iterator', '__normal_iterator<', 'intrusive_ptr<', 'std::function<', 'any_range<', 'sub_range<')
# documented to refer to what the user passed
REFERS = ('boost::accumulators::impl::reference_accumulator_impl',)


def statics(rep):
    inc = headers()
    out, err = build.parse('glob', HEADERS + ''.join('#include <%s>\n' % h for h in inc))
    if out is None:
        out, err = build.parse('glob', HEADERS + '#include <boost/accumulators/accumulators.hpp>\n#include <boost/accumulators/statistics.hpp>\n#include <boost/accumulators/statistics/rolling_variance.hpp>\n')
        if out is None:
            raise build.BrokenAnalysis('the headers do not compile: %s' % build.first_errors(err))
        rep.notes.append('not all headers compile together; only the umbrella headers are inspected')
    j = json.load(open(out))
    rep.units += len(inc)
    seen = set()
    for g in j['globals']:
        fl = j['files'][g['file']]
        if not fl.startswith(build.REPO + '/'):
            continue
        t = j['types'][g['type']]
        key = (g['name'], fl, g['line'], t)
        if key in seen:
            continue
        seen.add(key)
        bare = g['dependent'] and t.startswith('type-parameter')
        if g['const'] or g['empty'] or bare:
            rep.ok('variable with static storage')
            continue
        rep.bad('%s is constant or without state' % g['name'], '%s:%d' % (fl.replace(build.REPO + '/', ''), g['line']),
                '%s %s of type %s outlives the accumulator sets and is shared by all of them' % ('static local variable' if g['local'] else 'variable', g['name'], t[:120]), 'variable with static storage')


def refers(t):
    t = t.strip()
    if t.endswith(('*', '&')) or '*>' in t or '*,' in t or '&>' in t or ' *' in t and '(' not in t:
        return True
    return any(v in t for v in VIEWS)


def members(cases, bad, arg):
    rep = Rep()
    compile_failures(rep, bad)
    for c in cases:
        p = c.p
        rep.units += 1
        seen = set()

        def walk(rid):
            if rid in seen:
                return
            seen.add(rid)
            rec = p.records[rid]
            nm = p.types[rec['type']]
            fl = p.files[rec['file']] if 'file' in rec else ''
            for bt, bid in rec.get('bases', []):
                if bid in p.records:
                    walk(bid)
            for name, ti, mut, line in rec.get('fields', []):
                t = p.types[ti]
                if fl.startswith(build.REPO + '/'):
                    short_ = nm.split('<')[0]
                    if refers(t) and not short_.startswith(REFERS):
                        rep.bad('member %s of %s owns its value' % (name, short_.replace('boost::accumulators::', '')), '%s:%d' % (fl.replace(build.REPO + '/', ''), line),
                                'member %s has type %s: the accumulator refers to storage that it does not own or that its copies share' % (name, t[:160]), 'member of an accumulator')
                    else:
                        rep.ok('member of an accumulator')
                x = p.rec_of(ti)
                if x is not None:
                    walk(x)
        walk(c.rid)
    return rep


def main(pid):
    t0 = time.time()
    rep = Rep()
    build.ensure_tool()
    statics(rep)
    for r in pmap('checks.isolation', 'members', catalog.E, size=2):
        rep.merge(r)
    # one report per member
    u, seen = [], set()
    for v in rep.viol:
        if v['rule'] not in seen:
            seen.add(v['rule'])
            u.append(v)
    rep.viol = u
    return finish(pid, rep, t0, 'inventory of all variables with static storage in the headers (templates included) and of the members of every instantiated accumulator; shared or referring state is the violation',
                  assumptions=['classes of the standard library and of other Boost libraries own what they hold, except the views listed in sa/checks/isolation.py'], min_obl=200)
