"""The merged, resolved program: functions, records, enums, globals, class
hierarchy and call graph."""
import os
import pickle
import re
import sys

from . import facts
from .facts import BrokenAnalysis

sys.setrecursionlimit(20000)

SMART = re.compile(r'^(const )?(std::)?(shared_ptr|unique_ptr|weak_ptr|__shared_ptr\w*|scoped_ptr|vmime::utility::\w*auto_ptr)<')


def walk(n):
    """Every dict node below n (n included), pre-order."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


EXPR_KINDS = {'int', 'chr', 'bool', 'null', 'str', 'float', 'ref', 'mem', 'this', 'call', 'ctor', 'new', 'delete',
              'bin', 'asg', 'un', 'cond', 'cast', 'idx', 'ilist', 'zero', 'throw', 'sizeof', 'lambda', 'typeid',
              'arrcopy', 'stmtexpr', 'other', 'defarg'}


class Func:
    __slots__ = ('d', 'id', 'q', 'cls', 'name', 'file', 'line', 'configs', '_cfg', 'nid', 'kind', '_calls')

    def __init__(self, d, config):
        self.d = d
        self.id = d['id']
        self.q = d['q']
        self.cls = d.get('cls')
        self.name = self.q.rsplit('::', 1)[-1]
        self.file = d['file']
        self.line = d['l']
        self.kind = d.get('kind', 'fn')
        self.configs = {config}
        self._cfg = None
        self._calls = None
        # number expressions so that the flow engine can refer to values
        n = 0
        for x in walk(d):
            if 'k' in x:
                n += 1
                x['i'] = n
        self.nid = n

    def __repr__(self):
        return '<%s %s:%d>' % (self.q, self.file, self.line)

    @property
    def params(self):
        return self.d['p']

    def sig(self):
        return self.q + '(' + ', '.join(p['t'] for p in self.params) + ')'

    def nodes(self, *kinds):
        roots = [self.d.get('body')] + [i['e'] for i in self.d.get('inits', [])]
        for r in roots:
            if r is None:
                continue
            for x in walk(r):
                if not kinds or x.get('k') in kinds:
                    yield x

    def calls(self):
        if self._calls is None:
            self._calls = list(self.nodes('call', 'ctor'))
        return self._calls

    def __getstate__(self):
        return (self.d, self.id, self.q, self.cls, self.name, self.file, self.line, self.configs, self.nid, self.kind)

    def __setstate__(self, s):
        (self.d, self.id, self.q, self.cls, self.name, self.file, self.line, self.configs, self.nid, self.kind) = s
        self._cfg = None
        self._calls = None


class Program:
    def __init__(self):
        self.funcs = {}        # id -> [Func] (several when the configurations differ)
        self.records = {}      # q -> record dict
        self.enums = {}
        self.enumvals = {}
        self.globals = {}
        self.decl = {}         # method id -> declaration head (from records)
        self.units = []

    def add(self, config, fx):
        for r in fx['records']:
            q = r['q']
            if q in self.records:
                self.records[q]['configs'].add(config)
                # instantiations may add methods
                continue
            r['configs'] = {config}
            self.records[q] = r
        for e in fx['enums']:
            self.enums.setdefault(e['q'], e)
        for g in fx['globals']:
            key = (g['q'], g['file'], g['l'])
            if key not in self.globals:
                g['configs'] = {config}
                self.globals[key] = g
            else:
                self.globals[key]['configs'].add(config)
        for d in fx['funcs']:
            lst = self.funcs.setdefault(d['id'], [])
            for f in lst:
                if (f.file, f.line) == (d['file'], d['l']):
                    f.configs.add(config)
                    break
            else:
                lst.append(Func(d, config))

    def finish(self):
        self.fn = [f for l in self.funcs.values() for f in l]
        self.fn.sort(key=lambda f: (f.file, f.line, f.q))
        self.subs = {}
        self.byq = {}
        for f in self.fn:
            self.byq.setdefault(f.q, []).append(f)
        for q, r in self.records.items():
            for b in r['bases']:
                self.subs.setdefault(self.norm(b), set()).add(q)
            for m in r['methods']:
                if m['id'] not in self.decl:
                    self.decl[m['id']] = m
        for f in self.fn:
            self.decl.setdefault(f.id, f.d)
        self.overriders = {}
        for i, m in self.decl.items():
            for o in m.get('ov', []):
                self.overriders.setdefault(o, set()).add(i)
        self._roots = {}
        self._all_over = {}

    @staticmethod
    def norm(t):
        t = t.strip()
        if t.startswith('const '):
            t = t[6:]
        return t.rstrip('&* ').strip()

    # hierarchy -----------------------------------------------------------
    def bases(self, q):
        """All (transitive) bases of record q, q excluded."""
        out, st = [], [q]
        seen = {q}
        while st:
            r = self.records.get(st.pop())
            if not r:
                continue
            for b in r['bases']:
                b = self.norm(b)
                if b not in seen:
                    seen.add(b)
                    out.append(b)
                    st.append(b)
        return out

    def derives(self, a, b):
        return a == b or b in self.bases(a)

    def subclasses(self, q):
        out, st = set(), [q]
        while st:
            for s in self.subs.get(st.pop(), ()):
                if s not in out:
                    out.add(s)
                    st.append(s)
        return out

    def all_fields(self, q):
        out = []
        for c in [q] + self.bases(q):
            r = self.records.get(c)
            if r:
                out += r['fields']
        return out

    # methods --------------------------------------------------------------
    def roots(self, mid):
        """Qualified names of the method and of everything it overrides."""
        if mid in self._roots:
            return self._roots[mid]
        self._roots[mid] = out = set()
        d = self.decl.get(mid)
        if d:
            out.add(d['q'])
            for o in d.get('ov', []):
                out |= self.roots(o)
        return out

    def all_overriders(self, mid):
        if mid in self._all_over:
            return self._all_over[mid]
        out, st = set(), [mid]
        while st:
            for o in self.overriders.get(st.pop(), ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        self._all_over[mid] = out
        return out

    def names(self, call):
        """Names a call is known by: its static callee and what that overrides."""
        n = set(self.roots(call.get('id'))) if call.get('id') else set()
        if 'f' in call:
            n.add(call['f'])
        return n

    def targets(self, call, recv_class=None):
        """Bodies a call may enter (class hierarchy analysis)."""
        i = call.get('id')
        if not i:
            return []
        if not call.get('virt'):
            return self.funcs.get(i, [])
        ids = {i} | self.all_overriders(i)
        cls = recv_class or self.static_class(call)
        out = []
        if cls and cls in self.records:
            # the implementation inherited by cls plus those of its subclasses
            allowed = {cls} | self.subclasses(cls)
            up = set(self.bases(cls)) | {cls}
            for j in ids:
                for f in self.funcs.get(j, []):
                    if f.cls in allowed:
                        out.append(f)
            # inherited one: nearest definition in an ancestor
            anc = [c for c in [cls] + self.bases(cls)]
            defs = {f.cls: f for j in ids for f in self.funcs.get(j, [])}
            if not any(f.cls == cls for f in out):
                for c in anc:
                    if c in defs and c != cls:
                        out.append(defs[c])
                        break
            return out
        for j in ids:
            out += self.funcs.get(j, [])
        return out

    def static_class(self, call):
        o = call.get('o')
        if o is None:
            return call.get('rc')
        return self.norm(o.get('t', '')) or call.get('rc')

    def find(self, q):
        r = self.byq.get(q, [])
        return r

    def one(self, q):
        r = self.byq.get(q, [])
        if not r:
            raise BrokenAnalysis('anchor not found: ' + q)
        return r[0]

    def enum_value(self, enum, name):
        for e in self.enums.get(enum, {'e': []})['e']:
            if e['n'] == name:
                return e['v']
        raise BrokenAnalysis('enumerator not found: %s %s' % (enum, name))

    def rec(self, q):
        if q not in self.records:
            raise BrokenAnalysis('class not found: ' + q)
        return self.records[q]


def load():
    units, digest, counts = facts.load_facts()
    cache = os.path.join(facts.BUILD, 'program.pkl')
    code = facts.file_sha(os.path.abspath(__file__))
    try:
        with open(cache, 'rb') as f:
            if pickle.load(f) == digest + code:
                import gc
                gc.disable()
                P = pickle.load(f)
                gc.enable()
                P.finish()
                return P
    except (OSError, EOFError, pickle.UnpicklingError, AttributeError, ValueError):
        pass
    P = Program()
    import gc
    gc.disable()
    for config, src, out in units:
        with open(out, 'rb') as f:
            fx = pickle.load(f)['facts']
        P.add(config, fx)
        P.units.append((config, os.path.relpath(src, facts.REPO)))
    P.counts = counts
    gc.enable()
    tmp = cache + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump(digest + code, f)
        pickle.dump(P, f, protocol=4)
    os.rename(tmp, cache)
    P.finish()
    return P
