"""Whole-program effect summaries: exception types that may escape, fields a
function may write, trivial getters."""
from .program import walk
from .engine import path_of, transparent

# std:: operations that throw as part of their contract (not allocation failure)
STD_THROW = {'at': 'std::out_of_range', 'substr': 'std::out_of_range', 'stoi': 'std::invalid_argument',
             'stol': 'std::invalid_argument', 'stoul': 'std::invalid_argument', 'stoull': 'std::invalid_argument',
             'shared_from_this': 'std::bad_weak_ptr', 'function': None}


class Effects:
    def __init__(self, P):
        self.P = P
        self._thr = None
        self._mods = None
        self._get = {}

    # getters ------------------------------------------------------------
    def getter_path(self, f):
        if f in self._get:
            return self._get[f]
        self._get[f] = None
        b = f.d.get('body')
        if b and b['k'] == 'block' and len(b['b']) == 1 and b['b'][0]['k'] == 'ret' and b['b'][0].get('e') is not None \
                and not f.params and f.cls and not f.d.get('virt_open'):
            e = b['b'][0]['e']
            while e['k'] == 'ctor' and e.get('cp') and len(e['a']) == 1:
                e = e['a'][0]
            if 'cv' in e and e['k'] in ('int', 'bool', 'chr', 'ref'):
                self._get[f] = ('c', e['cv'])
            else:
                p = path_of(e)
                if p and p.startswith('this.'):
                    self._get[f] = ('p', p[4:])
        return self._get[f]

    # exceptions -----------------------------------------------------------
    def throws(self, f):
        if self._thr is None:
            self._compute_throws()
        return self._thr.get(f, set())

    def call_throws(self, e):
        """Types a call expression may raise."""
        if self._thr is None:
            self._compute_throws()
        return self._call(e)

    def _call(self, e):
        if e.get('nothrow') or e.get('ec'):
            return set()
        P = self.P
        f = e.get('f', '')
        if e.get('ind'):
            return {'?'}
        ts = P.targets(e)
        if ts:
            out = set()
            for t in ts:
                out |= self._thr.get(t, set())
            return out
        if e.get('in'):
            # declared in the library, no body here: an interface the application implements,
            # or a compiler-generated special member
            d = P.decl.get(e.get('id'))
            if e.get('virt') and d is not None:
                return {'?'}
            return set()
        n = f.rsplit('::', 1)[-1]
        t = STD_THROW.get(n)
        if t and f.startswith('std::'):
            return {t}
        if e.get('op') == '()' and f.startswith('std::function'):
            return {'?'}
        if f.startswith('std::make_shared') or f.startswith('std::make_unique'):
            # constructors of repo classes run inside
            out = set()
            t = e.get('t', '')
            c = t[t.find('<') + 1:t.rfind('>')].replace('const ', '').strip()
            for g in P.fn_by_cls.get(c, ()):
                if g.kind == 'ctor' and len(g.params) >= len(e['a']):
                    out |= self._thr.get(g, set())
            return out
        return set()

    def _compute_throws(self):
        P = self.P
        if not hasattr(P, 'fn_by_cls'):
            P.fn_by_cls = {}
            for f in P.fn:
                if f.cls:
                    P.fn_by_cls.setdefault(f.cls, []).append(f)
        self._thr = {f: set() for f in P.fn}
        changed = True
        rounds = 0
        # dependency driven iteration
        work = list(P.fn)
        callers = {}
        for f in P.fn:
            for c in f.calls():
                for t in P.targets(c):
                    callers.setdefault(t, set()).add(f)
                if c.get('f', '').startswith('std::make_'):
                    tt = c.get('t', '')
                    cn = tt[tt.find('<') + 1:tt.rfind('>')].replace('const ', '').strip()
                    for g in P.fn_by_cls.get(cn, ()):
                        if g.kind == 'ctor':
                            callers.setdefault(g, set()).add(f)
        inw = set(work)
        while work:
            f = work.pop()
            inw.discard(f)
            new = self._fthrows(f)
            if not new <= self._thr[f]:
                self._thr[f] |= new
                for c in callers.get(f, ()):
                    if c not in inw:
                        inw.add(c)
                        work.append(c)

    def _fthrows(self, f):
        out = set()
        for ini in f.d.get('inits', []):
            out |= self._n(ini['e'], None)
        if f.d.get('body'):
            out |= self._n(f.d['body'], None)
        return out

    def _n(self, n, cur):
        """Exceptions escaping node n; cur = types bound to the innermost handler."""
        if n is None:
            return set()
        if isinstance(n, list):
            out = set()
            for x in n:
                out |= self._n(x, cur)
            return out
        if not isinstance(n, dict):
            return set()
        k = n.get('k')
        if k == 'lambda':
            return set()
        if k == 'try':
            body = self._n(n['b'], cur)
            out = set()
            rest = set(body)
            for h in n['h']:
                caught = set()
                for t in list(rest):
                    m = 'yes' if h.get('all') else self._catches(h['t'], t)
                    if m != 'no':
                        caught.add(t if m == 'yes' or t not in ('?', 'vmime?') else h['t'])
                    if m == 'yes':
                        rest.discard(t)
                out |= self._n(h['b'], caught)
            return out | rest
        out = set()
        for key, v in n.items():
            if isinstance(v, (dict, list)):
                out |= self._n(v, cur)
        if k == 'throw':
            if 'tt' in n:
                out.add(self.P.norm(n['tt']))
            else:
                out |= cur if cur is not None else {'?'}
        elif k in ('call', 'ctor'):
            out |= self._call(n)
        elif k == 'cast' and n.get('ck') == 'dynamic' and not n.get('t', '').rstrip().endswith('*'):
            out.add('std::bad_cast')
        return out

    def _catches(self, h, t):
        P = self.P
        if t == '?':
            return 'maybe'
        if h == t or P.derives(t, h):
            return 'yes'
        if h == 'std::exception':
            return 'yes' if t.startswith('std::') or 'std::exception' in P.bases(t) else 'no'
        return 'no'

    # writes ---------------------------------------------------------------
    def mods(self, f):
        """Names of fields f may write, transitively (any object)."""
        if self._mods is None:
            self._compute_mods()
        return self._mods.get(f, set())

    def _compute_mods(self):
        P = self.P
        direct = {}
        callers = {}
        for f in P.fn:
            s = set()
            for n in f.nodes('asg', 'un', 'call', 'ctor'):
                k = n['k']
                if k == 'asg':
                    self._field(n['x'], s)
                elif k == 'un':
                    if n['op'] in ('++', '--'):
                        self._field(n['e'], s)
                elif k == 'call':
                    if 'o' in n and not n.get('const') and not transparent(n):
                        self._field(n['o'], s)
                if k in ('call', 'ctor'):
                    ra = n.get('ra', ())
                    for i, a in enumerate(n['a']):
                        if a is not None and i in ra:
                            self._field(a['e'] if a['k'] == 'un' and a['op'] == '&' else a, s)
                    for t in P.targets(n):
                        callers.setdefault(t, set()).add(f)
            for ini in f.d.get('inits', []):
                if 'm' in ini and f.kind != 'ctor':
                    s.add(ini['m'].rsplit('::', 1)[-1])
            direct[f] = s
        self._mods = {f: set(s) for f, s in direct.items()}
        work = [f for f in P.fn if direct[f]]
        inw = set(work)
        while work:
            f = work.pop()
            inw.discard(f)
            for c in callers.get(f, ()):
                if not self._mods[f] <= self._mods[c]:
                    self._mods[c] |= self._mods[f]
                    if c not in inw:
                        inw.add(c)
                        work.append(c)

    def _field(self, e, s):
        """Record the field an lvalue expression designates."""
        while e is not None:
            k = e['k']
            if k == 'mem':
                s.add(e['n'])
                return
            if k == 'idx':
                e = e['b']
            elif k == 'un' and e['op'] in ('*', '&'):
                e = e['e']
            elif k == 'cast':
                e = e['e']
            elif k == 'call' and (transparent(e) or e.get('op') == '[]'):
                e = e.get('o')
            elif k == 'cond':
                self._field(e['x'], s)
                e = e['y']
            else:
                return
