"""Loader for the resolved program written by tool/astdump."""
import json, re

CONTAINERS = ('std::vector<', 'boost::circular_buffer<', 'boost::array<', 'std::array<', 'std::valarray<',
              'boost::circular_buffer_space_optimized<', 'std::deque<', 'std::list<')
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char', 'bool'}
WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
         'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
FLOATS = {'float': 24, 'double': 53, 'long double': 64}


def strip(t):
    """type without reference and top-level cv"""
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:].strip()
        if t.startswith('volatile '):
            t = t[9:].strip()
        if t.endswith(' const'):
            t = t[:-6].strip()
        if t == o:
            return t


def is_ref(t):
    return t.endswith('&')


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d['types']
        self.files = d['files']
        self.functions = {f['id']: f for f in d['functions']}
        self.records = {r['id']: r for r in d['records']}
        self.globals = d['globals']
        self.templates = d['templates']
        self.rec_by_type = {}
        for r in self.records.values():
            self.rec_by_type[self.types[r['type']]] = r['id']
        self.by_q = {}
        for f in self.functions.values():
            self.by_q.setdefault(f['q'], []).append(f)
        self._flat = {}
        self._strip = {}
        self._cop = None
        self._spec = {}

    def tstrip(self, ti):
        r = self._strip.get(ti)
        if r is None:
            r = self._strip[ti] = strip(self.types[ti]) if ti >= 0 else ''
        return r

    def rec_of(self, ti):
        """record id of a class type (None for scalars, containers, pointers)"""
        return self.rec_of_str(self.tstrip(ti))

    def rec_of_str(self, t):
        if t.startswith(CONTAINERS) or t.endswith('*') or t.endswith(']'):
            return None
        return self.rec_by_type.get(t)

    def flat_fields(self, rid):
        """(owner record, name, type index, mutable) over the record and its bases"""
        r = self._flat.get(rid)
        if r is None:
            r = []
            rec = self.records[rid]
            for bt, bid in rec.get('bases', []):
                if bid in self.records:
                    r += self.flat_fields(bid)
            for name, ty, mut, line in rec.get('fields', []):
                r.append((rid, name, ty, mut))
            self._flat[rid] = r
        return r

    def copiers(self):
        """user-provided copy/move constructors and copy assignments with a body: {(kind, record): function}"""
        if self._cop is None:
            self._cop = {}
            for f in self.functions.values():
                if 'rec' in f and 'body' in f and not f.get('defaulted') and not f.get('implicit'):
                    for k in ('copy', 'move', 'copyassign'):
                        if f.get(k):
                            self._cop[(k, f['rec'])] = f
        return self._cop

    def special(self, rid):
        """does copying the class run code of this repository?"""
        r = self._spec.get(rid)
        if r is None:
            self._spec[rid] = False
            cp = self.copiers()
            r = any((k, rid) in cp and self.files[cp[(k, rid)]['file']].startswith('/repo/') for k in ('copy', 'move', 'copyassign'))
            rec = self.records[rid]
            if not r:
                r = any(b in self.records and self.special(b) for _, b in rec.get('bases', []))
            if not r:
                for n, ti, m, l in rec.get('fields', []):
                    x = self.rec_of(ti)
                    if x is not None and not is_ref(self.types[ti]) and self.special(x):
                        r = True
                        break
            self._spec[rid] = r
        return r

    def field_type(self, rid, name):
        for n, ty, mut, line in self.records[rid].get('fields', []):
            if n == name:
                return ty
        return None

    def where(self, f, line=None):
        fn = self.files[f['file']]
        return '%s:%s' % (fn.replace('/repo/', ''), line if line is not None else f['line'])


def split_targs(s):
    """template arguments of a type string, one level"""
    i = s.find('<')
    if i < 0:
        return s, []
    name = s[:i]
    depth = 0
    out = []
    cur = ''
    for ch in s[i + 1:]:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            if depth == 0 and ch == '>':
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return name, out


def short(t):
    """readable class name"""
    t = re.sub(r'\b(boost|accumulators|impl|mpl_|mpl|std|fusion|detail|numeric|parameter|aux)::', '', t)
    return t
