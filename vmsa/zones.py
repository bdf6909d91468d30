"""Zone (difference-bound) abstract interpretation of integers, positions and container sizes.

The state of a program point is a conjunction of constraints x - y <= c between terms: integer variables and members, sizes
of strings and containers, and offsets of pointers and iterators into the object they point to.  Loops are widened; callees
that are private, static or local to a file are evaluated in the context of their callers.  Nothing is executed.
"""
import re

from .cfg import CFG
from .engine import transparent, is_smart
from .program import walk

NPOS = (1 << 64) - 1
BIG = 1 << 62          # no object is larger
INF = float('inf')
Z = 'Z'
TEMP = re.compile(r'^(.*/)?e\d+$')
FRESH = re.compile(r'^#(.*/this|(.*/)?e\d+)(\.|$)')

RANGE = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767),
         'unsigned short': (0, 65535), 'char16_t': (0, 65535), 'wchar_t': (-INF, INF), 'int': (-(1 << 31), (1 << 31) - 1),
         'unsigned int': (0, (1 << 32) - 1), 'char32_t': (0, (1 << 32) - 1), 'long': (-INF, INF), 'long long': (-INF, INF),
         'unsigned long': (0, INF), 'unsigned long long': (0, INF)}
SEQ = re.compile(r'^std::(__cxx11::)?(basic_string<|string\b|vector<|deque<|array<|u16string|wstring)')
STRT = re.compile(r'^std::(__cxx11::)?(basic_string<|string\b|u16string|wstring)')
ITT = re.compile(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|std::_Bit_iterator)')
RITT = re.compile(r'^std::(reverse_iterator|__cxx11::reverse_iterator)')


def base_t(t):
    t = t.strip()
    if t.endswith('&'):
        t = t[:-1].strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith(' const') or t.endswith('*const'):
            t = t[:-5].strip()
        else:
            return t


def trange(t):
    return RANGE.get(base_t(t or ''), (-INF, INF))


def isint(t):
    return base_t(t or '') in RANGE


def isptr(t):
    t = base_t(t or '')
    return t.endswith('*') or bool(ITT.match(t))


def arraylen(t):
    m = re.search(r'\[(\d+)\]$', base_t(t or ''))
    return int(m.group(1)) if m else None


class State:
    """Closed set of constraints; base: regions of pointers; maybe: results of find() that may be npos; defs: sums, differences."""
    __slots__ = ('m', 'base', 'maybe', 'defs', 'flag')
    # sums of two variables followed as terms of their own: variable -> [(term of the sum, other variable)]
    pairs = {}
    # where widening stops
    thresholds = (-1, 0, 1)

    def __init__(self):
        self.m = {}       # x -> {y: c} : x - y <= c
        self.base = {}
        self.maybe = {}
        self.defs = {}
        self.flag = {}    # boolean variable/temporary -> [(term, constraints if true, constraints if false)]

    def copy(self):
        s = State()
        s.m = {x: dict(r) for x, r in self.m.items()}
        s.base = dict(self.base)
        s.maybe = dict(self.maybe)
        s.defs = dict(self.defs)
        s.flag = dict(self.flag)
        return s

    def get(self, x, y):
        """Least known c with x - y <= c."""
        if x == y:
            return 0
        return self.m.get(x, {}).get(y, INF)

    def ub(self, t):
        if t[0] == Z:
            return t[1]
        return self.get(t[0], Z) + t[1]

    def lb(self, t):
        if t[0] == Z:
            return t[1]
        return -self.get(Z, t[0]) + t[1]

    def le(self, a, b, c=0):
        """a <= b + c for linear expressions (term, const)?"""
        return self.get(a[0], b[0]) <= b[1] + c - a[1]

    def add(self, x, y, c):
        """x - y <= c; False when the state becomes unreachable."""
        if c == INF:
            return True
        if x == y:
            return c >= 0
        if self.get(x, y) <= c:
            return True
        if self.get(y, x) + c < 0:
            return False
        m = self.m
        ups = [(x, 0)] + [(a, r[x]) for a, r in m.items() if x in r]
        downs = [(y, 0)] + list(m.get(y, {}).items())
        for a, ca in ups:
            ra = m.setdefault(a, {})
            for b, cb in downs:
                if a == b:
                    if ca + c + cb < 0:
                        return False
                    continue
                v = ca + c + cb
                if v < ra.get(b, INF):
                    ra[b] = v
        return True

    def addle(self, a, b, c=0):
        return self.add(a[0], b[0], b[1] + c - a[1])

    def forget(self, t):
        if t == Z:
            return
        self.m.pop(t, None)
        for r in self.m.values():
            r.pop(t, None)
        self.maybe.pop(t, None)
        self.flag.pop(t, None)
        self.base.pop(t, None)
        for sy, _ in self.pairs.get(t, ()):
            self.forget(sy)
        if self.defs:
            for k in [k for k, d in self.defs.items() if k == t or d[1][0] == t or d[2][0] == t]:
                del self.defs[k]
        for k in [k for k, v in self.maybe.items() if t in v[2]]:
            del self.maybe[k]
        for k in [k for k, v in self.flag.items() if any(t in (c[0], c[1]) for cs in v for c in cs)]:
            del self.flag[k]

    def assign(self, t, v, rng=(-INF, INF)):
        """t := v (linear or None)."""
        if v is not None and v[0] == t:
            self.shift(t, v[1])
            return
        mb = self.maybe.get(v[0]) if v is not None and v[1] == 0 else None
        df = self.defs.get(v[0]) if v is not None and v[1] == 0 else None
        fl = self.flag.get(v[0]) if v is not None and v[1] == 0 else None
        self.forget(t)
        if v is None:
            if rng[1] < INF:
                self.add(t, Z, rng[1])
            if rng[0] > -INF:
                self.add(Z, t, -rng[0])
            return
        self.add(t, v[0], v[1])
        self.add(v[0], t, -v[1])
        if mb and t not in mb[2]:
            self.maybe[t] = mb
        if df and t not in (df[1][0], df[2][0]):
            self.defs[t] = df
        if fl:
            self.flag[t] = fl
        self.resum(t, v)

    @classmethod
    def pair(cls, x, y):
        if x == y or any(o == y for _, o in cls.pairs.get(x, ())):
            return
        sy = '+:%s|%s' % tuple(sorted((x, y)))
        cls.pairs.setdefault(x, []).append((sy, y))
        cls.pairs.setdefault(y, []).append((sy, x))

    def resum(self, t, v):
        """t was assigned v: what the sums with t are now."""
        for sy, y in self.pairs.get(t, ()):
            if v[0] == Z:
                self.add(sy, y, v[1])
                self.add(y, sy, -v[1])
                continue
            c = self.ub((y, 0))
            if c < BIG and self.lb((y, 0)) == c:
                self.add(sy, t, c)
                self.add(t, sy, -c)
            for s2, o in self.pairs.get(v[0], ()):
                if o == y:
                    self.add(sy, s2, v[1])
                    self.add(s2, sy, -v[1])

    def step(self, x, op, n):
        """x := x op n comes: what is to be done with the sums of x after it. A sum whose other operand moves by the same amount
        in the other direction is the same again after both."""
        todo = []
        if n is None or n[0] == Z:
            return todo
        for sy, _ in self.pairs.get(x, ()):
            d = self.defs.get(sy)
            if d and d[1] == ('os:' + sy, 0) and d[2] == n and d[0] != op:
                todo.append((sy, None))
            else:
                self.assign('os:' + sy, (sy, 0))
                todo.append((sy, (op, ('os:' + sy, 0), n)))
        return todo

    def stepped(self, todo):
        for sy, d in todo:
            if d is not None:
                self.defs[sy] = d
            else:
                self.assign(sy, ('os:' + sy, 0))
                self.forget('os:' + sy)

    def saturate(self):
        """Relates the sums to their operands."""
        done = set()
        for x, ps in self.pairs.items():
            for sy, y in ps:
                if sy in done:
                    continue
                done.add(sy)
                for a, b in ((x, y), (y, x)):
                    if not (self.add(a, sy, -self.lb((b, 0))) and self.add(sy, a, self.ub((b, 0)))):
                        return False
        # x <= k with k = p - q: x + q <= p
        for k, d in self.defs.items():
            if d[0] == '-':
                for sy, x in self.pairs.get(d[2][0], ()):
                    if not (self.add(sy, d[1][0], self.get(x, k) + d[1][1] - d[2][1]) and
                            self.add(d[1][0], sy, self.get(k, x) - d[1][1] + d[2][1])):
                        return False
        for x, ps in self.pairs.items():
            # x + y against x + z
            for i in range(len(ps)):
                for j in range(i):
                    (s1, y), (s2, z) = ps[i], ps[j]
                    for c, d, u, w in ((s1, s2, y, z), (s2, s1, z, y)):
                        if not (self.add(c, d, self.get(u, w)) and self.add(u, w, self.get(c, d))):
                            return False
        return True

    def shift(self, t, c):
        if c == 0:
            return
        for sy, _ in self.pairs.get(t, ()):
            self.shift(sy, c)
        for y in self.m.get(t, {}):
            self.m[t][y] += c
        for x, r in self.m.items():
            if t in r:
                r[t] -= c
        self.maybe.pop(t, None)
        self.flag.pop(t, None)
        for k in [k for k, d in self.defs.items() if k == t or d[1][0] == t or d[2][0] == t]:
            del self.defs[k]
        for k in [k for k, v in self.maybe.items() if t in v[2]]:
            del self.maybe[k]
        for k in [k for k, v in self.flag.items() if any(t in (q[0], q[1]) for cs in v for q in cs)]:
            del self.flag[k]

    def join(self, o, widen=False):
        """Least upper bound (in a new state); widen: self is the previous state of a loop head."""
        s = State()
        for x, r in self.m.items():
            ro = o.m.get(x)
            if not ro:
                continue
            n = {}
            for y, c in r.items():
                d = ro.get(y)
                if d is None:
                    continue
                if d <= c:
                    n[y] = c
                elif not widen:
                    n[y] = d
                else:
                    for th in self.thresholds:
                        if d <= th:
                            n[y] = th
                            break
            if n:
                s.m[x] = n
        s.base = {k: v for k, v in self.base.items() if o.base.get(k) == v}
        s.maybe = {k: v for k, v in self.maybe.items() if o.maybe.get(k) == v}
        # a value that cannot be npos on one side
        for a, b in ((self, o), (o, self)):
            for k, v in a.maybe.items():
                if k not in s.maybe and k not in b.maybe and all(b.get(x, y) <= c for x, y, c in subst(v[0], k)):
                    s.maybe[k] = v
        s.defs = {k: v for k, v in self.defs.items() if o.defs.get(k) == v}
        s.flag = {k: v for k, v in self.flag.items() if o.flag.get(k) == v}
        return s

    def leq(self, o):
        """Every constraint of o holds in self."""
        for x, r in o.m.items():
            for y, c in r.items():
                if self.get(x, y) > c:
                    return False
        return all(self.base.get(k) == v for k, v in o.base.items()) and all(
            self.maybe.get(k) == v for k, v in o.maybe.items()) and all(
            self.defs.get(k) == v for k, v in o.defs.items()) and all(self.flag.get(k) == v for k, v in o.flag.items())

    def show(self, only=None):
        out = []
        for x, r in sorted(self.m.items()):
            for y, c in sorted(r.items()):
                if only is None or only in x or only in y:
                    out.append('%s-%s<=%s' % (x, y, c))
        return ' '.join(out)


def subst(cs, t):
    return [(t if x == '?' else x, t if y == '?' else y, c) for x, y, c in cs]


class ZCFG(CFG):
    """Accesses through [] and * become nodes."""

    def ev(self, e):
        super().ev(e)
        if e is None:
            return
        if e['k'] == 'idx':
            self.add('idx', e)
        elif e['k'] == 'un' and e['op'] == '*':
            self.add('deref', e)
        elif e['k'] == 'un' and e['op'] == '&' and e['e']['k'] in ('idx', 'un', 'call'):
            # not an access yet
            self.addr.add(e['e']['i'])

    def __init__(self, f):
        self.addr = set()
        super().__init__(f)


def liveness(cfg, f):
    """For each edge, the temporaries and the local scalars whose value is not used any more."""
    ref = set()
    scalar = set()
    for n in f.nodes('decl'):
        for v in n['v']:
            t = v['t']
            if v.get('isref') and v.get('init') is not None:
                ref |= {x['d'] for x in walk(v['init']) if x.get('k') == 'ref' and 'd' in x}
            elif not v.get('static') and (isint(t) or isptr(t)):
                scalar.add(v['d'])
    for n in f.nodes('un'):
        if n['op'] == '&':
            ref |= {x['d'] for x in walk(n['e']) if x.get('k') == 'ref' and 'd' in x}
    scalar -= ref
    uses, defs = {}, {}
    for n in cfg.nodes:
        u, d = set(), set()
        exprs = [x for x in (n.e, n.x) if isinstance(x, dict)]
        for e in exprs:
            if n.kind == 'decl' and e is n.x:
                if e['d'] in scalar:
                    d.add(('v', e['d']))
                e = e.get('init')
            for x in walk(e or {}):
                if x.get('k') == 'ref' and x.get('d') in scalar:
                    u.add(('v', x['d']))
                if 'i' in x:
                    u.add(('e', x['i']))
        if n.e is not None and n.kind != 'decl' and 'i' in n.e:
            d.add(('e', n.e['i']))
        if n.kind == 'asg' and (n.e.get('op') or '=') == '=' and n.e['x']['k'] == 'ref' and n.e['x'].get('d') in scalar:
            v = ('v', n.e['x']['d'])
            d.add(v)
            if not any(x.get('k') == 'ref' and x.get('d') == v[1] for x in walk(n.e['y'])):
                u.discard(v)
        if n.kind in ('call', 'ctor', 'idx', 'deref', 'inc', 'setv', 'sel', 'asg') and n.e is not None:
            u.discard(('e', n.e['i']))
        uses[n.i], defs[n.i] = u, d
    live = {n.i: set() for n in cfg.nodes}
    preds = {}
    for n in cfg.nodes:
        for _, j in n.succ:
            preds.setdefault(j, []).append(n)
    work = list(cfg.nodes)
    inw = {n.i for n in work}
    while work:
        n = work.pop()
        inw.discard(n.i)
        out = set()
        for _, j in n.succ:
            out |= live[j]
        new = uses[n.i] | out - defs[n.i]
        if new != live[n.i]:
            live[n.i] = new
            for p in preds.get(n.i, ()):
                if p.i not in inw:
                    inw.add(p.i)
                    work.append(p)
    dead = {}
    for n in cfg.nodes:
        out = set()
        for _, j in n.succ:
            out |= live[j]
        have = live[n.i] | defs[n.i] | uses[n.i] | out
        for _, j in n.succ:
            d = have - live[j]
            if d:
                dead[n.i, j] = d
    return dead


class Frame:
    def __init__(self, f, cfg, pre, this, bind, depth, outer=None):
        self.outer = outer
        self.f = f
        self.cfg = cfg
        self.pre = pre
        self.this = this
        self.bind = bind     # parameter -> path it refers to
        self.depth = depth


def strip(e):
    while e is not None and e['k'] in ('defarg',) or e is not None and e['k'] == 'ctor' and e.get('cp') and len(e['a']) == 1:
        e = e['e'] if e['k'] == 'defarg' else e['a'][0]
    return e


class Zones:
    MAXDEPTH = 3

    def __init__(self, P, fx, policy):
        self.P = P
        self.fx = fx
        self.policy = policy       # contract(f), inline(f), summary
        self.cfgs = {}
        self.report = None         # report(frame, node, e, ok, text)
        self.near = set()
        self.owned = {}
        self.dead = {}
        self.steps = 0
        self.stack = []
        self.exit_hook = None
        self.inlined = set()

    def cfg(self, f):
        if f not in self.cfgs:
            self.cfgs[f] = ZCFG(f)
        return self.cfgs[f]

    # names ---------------------------------------------------------------------------------------
    def path(self, e, F):
        """Canonical name of an lvalue."""
        while e is not None:
            k = e['k']
            if k == 'ref':
                dk = e.get('dk')
                if dk in ('local', 'param'):
                    d = e['d']
                    return F.bind.get(d, '%sv%d' % (F.pre, d))
                if dk == 'slocal':
                    return '%ss%d' % (F.f.id, e['d'])
                if dk == 'global':
                    return 'g:' + e.get('q', e['n'])
                return None
            if k == 'this':
                return F.this
            if k == 'mem':
                if e.get('static'):
                    return 'g:' + e['q']
                b = self.path(e['b'], F)
                return None if b is None else b + '.' + e['n']
            if k == 'un' and e['op'] == '*':
                p = self.path(e['e'], F)
                return None if p is None else F.bind.get(p, p + '.*')
            if k == 'un' and e['op'] == '&':
                p = self.path(e['e'], F)
                return p[:-2] if p is not None and p.endswith('.*') else None
            if k in ('cast', 'defarg'):
                e = e['e']
                continue
            if k == 'ctor' and e.get('cp') and len(e['a']) == 1:
                e = e['a'][0]
                continue
            if k == 'call' and transparent(e):
                p = self.path(e['o'], F)
                return None if p is None else p + '.*'
            if k == 'call' and e.get('op') in ('*', '->') and not e['a'] and e.get('o') is not None and ITT.match(base_t(e.get('ot', ''))):
                p = self.path(e['o'], F)
                return None if p is None else p + '.*'
            if k == 'call' and not e['a'] and e.get('o') is not None:
                # a plain getter
                for t in self.P.targets(e):
                    g = self.fx.getter_path(t)
                    if g and g[0] == 'p':
                        p = self.path(e['o'], F)
                        return None if p is None else p + g[1]
                return None
            return None
        return None

    # values --------------------------------------------------------------------------------------
    def val(self, e, st, F):
        """Integer expression -> (term, const) or None."""
        e = strip(e)
        if e is None:
            return None
        cv = e.get('cv')
        if cv is not None:
            if base_t(e.get('t', '')) in ('unsigned long', 'unsigned long long') and cv < 0:
                cv += 1 << 64
            return (Z, cv)
        k = e['k']
        if k == 'cast':
            v = self.val(e['e'], st, F)
            if not isint(e.get('t')):
                return v
            if v is None:
                return None
            lo, hi = trange(e['t'])
            l2, h2 = trange(e['e'].get('t'))
            if (st.ub(v) <= hi or h2 <= hi) and (st.lb(v) >= lo or l2 >= lo):
                return v
            return self.tmp(e, st, F, None)
        if k in ('ref', 'mem') or k == 'un' and e['op'] == '*':
            if not isint(e.get('t')) and not (k == 'ref' or k == 'mem'):
                return None
            if isptr(e.get('t', '')) or SEQ.match(base_t(e.get('t', ''))):
                return None
            p = self.path(e, F)
            if p is None:
                return None
            if k == 'un' and self.ptr(e['e'], st, F) is not None and not p.endswith('.*'):
                return None
            lo, hi = trange(e.get('t'))
            if hi < INF and st.get(p, Z) > hi:
                st.add(p, Z, hi)
            if lo > -INF and -st.get(Z, p) < lo:
                st.add(Z, p, -lo)
            return (p, 0)
        if k == 'bin':
            return self.binop(e, st, F)
        if k == 'un':
            op = e['op']
            if op in ('++', '--'):
                return ('%se%d' % (F.pre, e['i']), 0)
            if op == '+':
                return self.val(e['e'], st, F)
            if op == '-':
                v = self.val(e['e'], st, F)
                if v is not None and v[0] == Z:
                    return (Z, -v[1])
                return self.rng(e, st, F, -st.ub(v), -st.lb(v)) if v is not None else None
            if op == '!':
                v = self.val(e['e'], st, F)
                fl = st.flag.get(v[0]) if v is not None and v[1] == 0 else None
                r = self.rng(e, st, F, 0, 1)
                if fl:
                    st.flag[r[0]] = (fl[1], fl[0])
                return r
            return None
        if k == 'asg':
            if e.get('op') in (None, '='):
                p = self.path(e['x'], F)
                if p is not None:
                    return (p, 0)
            p = self.path(e['x'], F)
            return (p, 0) if p is not None else None
        if k in ('call', 'cond', 'idx'):
            t = '%se%d' % (F.pre, e['i'])
            if isint(e.get('t')) or k == 'cond':
                lo, hi = trange(e.get('t'))
                if hi < INF:
                    st.add(t, Z, hi)
                if lo > -INF:
                    st.add(Z, t, -lo)
                return (t, 0)
            return None
        return None

    def facts(self, e, st, F):
        """Constraints that hold when a comparison is true, and when it is false."""
        x, y, op = e['x'], e['y'], e['op']
        if isptr(x.get('t', '')) and isptr(y.get('t', '')):
            a, b = self.ptr(x, st, F), self.ptr(y, st, F)
            if a is None or b is None or a[0][1:] != b[0][1:]:
                return None
            a, b = a[1:], b[1:]
        elif isint(x.get('t')) and isint(y.get('t')):
            a, b = self.val(x, st, F), self.val(y, st, F)
            if a is None or b is None or self.npos(a, st) or self.npos(b, st):
                return None
        else:
            return None
        t, f = self.relcs(a, op, b, st), self.relcs(a, self.NEGOP[op], b, st)
        return (t, f) if t or f else None

    @staticmethod
    def relcs(a, op, b, st):
        le = lambda u, v, c: (u[0], v[0], v[1] - u[1] + c)
        if a[0] == b[0]:
            return ()
        if op == '==':
            return (le(a, b, 0), le(b, a, 0))
        if op == '!=':
            return (le(a, b, -1),) if st.le(a, b) else (le(b, a, -1),) if st.le(b, a) else ()
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        return (le(a, b, -1 if op == '<' else 0),)

    def tmp(self, e, st, F, v):
        t = '%se%d' % (F.pre, e['i'])
        st.assign(t, v, trange(e.get('t')))
        return (t, 0)

    def rng(self, e, st, F, lo, hi):
        t = '%se%d' % (F.pre, e['i'])
        st.forget(t)
        l0, h0 = trange(e.get('t'))
        lo, hi = max(lo, l0), min(hi, h0)
        if hi < INF:
            st.add(t, Z, hi)
        if lo > -INF:
            st.add(Z, t, -lo)
        return (t, 0)

    def binop(self, e, st, F):
        op = e['op']
        if op == ',':
            return self.val(e['y'], st, F)
        if op in ('==', '!=', '<', '<=', '>', '>=', '&&', '||'):
            t = '%se%d' % (F.pre, e['i'])
            if op not in ('&&', '||'):
                fl = self.facts(e, st, F)
                r = self.rng(e, st, F, 0, 1)
                if fl:
                    st.flag[t] = fl
                return r
            return (t, 0)
        if op == '-' and isptr(e['x'].get('t', '')) and isptr(e['y'].get('t', '')):
            a, b = self.ptr(e['x'], st, F), self.ptr(e['y'], st, F)
            if a is None or b is None or a[0] != b[0]:
                return None
            return self.sub(e, (a[1], a[2]), (b[1], b[2]), st, F)
        a, b = self.val(e['x'], st, F), self.val(e['y'], st, F)
        uns = trange(e.get('t'))[0] == 0
        if op == '+':
            if a is None or b is None:
                return None
            return self.sum(e, a, b, st, F)
        if op == '-':
            if a is None:
                return None
            if b is None:
                return None
            return self.sub(e, a, b, st, F)
        if op == '&':
            hi = INF
            for v in (a, b):
                if v is not None and st.lb(v) >= 0:
                    hi = min(hi, st.ub(v))
            return self.rng(e, st, F, 0 if hi < INF or uns else -INF, hi)
        if op == '%':
            if b is not None and st.lb(b) >= 1 and (uns or a is not None and st.lb(a) >= 0):
                r = self.rng(e, st, F, 0, st.ub(b) - 1)
                st.addle(r, b, -1)
                if a is not None:
                    st.addle(r, a)
                return r
            if b is not None and b[0] == Z and b[1]:
                return self.rng(e, st, F, -abs(b[1]) + 1, abs(b[1]) - 1)
            return None
        if op in ('/', '>>') and b is not None and b[0] == Z and a is not None:
            k = b[1] if op == '/' else (1 << b[1] if 0 <= b[1] < 64 else 0)
            if k > 0 and st.lb(a) >= 0:
                hi = st.ub(a)
                r = self.rng(e, st, F, int(st.lb(a)) // k if st.lb(a) < INF else 0, hi if hi == INF else int(hi) // k)
                st.addle(r, a)
                return r
            return None
        if op in ('*', '<<') and a is not None and b is not None:
            la, ua, lb, ub = st.lb(a), st.ub(a), st.lb(b), st.ub(b)
            if la >= 0 and lb >= 0:
                if op == '<<':
                    if ub > 62:
                        return None
                    lb, ub = 1 << int(lb), 1 << int(ub)
                hi = INF if INF in (ua, ub) and 0 not in (ua, ub) else ua * ub
                r = self.rng(e, st, F, la * lb, hi)
                if lb >= 1:
                    st.addle(a, r)
                return r
            return None
        if op == '|' and a is not None and b is not None and st.lb(a) >= 0 and st.lb(b) >= 0 and max(st.ub(a), st.ub(b)) < INF:
            return self.rng(e, st, F, 0, (1 << int(max(st.ub(a), st.ub(b))).bit_length()) - 1)
        return None

    def npos(self, v, st):
        """The value may be npos."""
        if v[0] == Z:
            return v[1] >= BIG
        return v[0] in st.maybe

    def sum(self, e, a, b, st, F):
        if a[0] == Z and not self.npos(b, st) and abs(a[1]) < BIG:
            return (b[0], b[1] + a[1])
        if b[0] == Z and not self.npos(a, st) and abs(b[1]) < BIG:
            return (a[0], a[1] + b[1])
        t = '%se%d' % (F.pre, e['i'])
        st.forget(t)
        uns = trange(e.get('t'))[0] == 0 and isint(e.get('t'))
        if self.npos(a, st) or self.npos(b, st):
            if uns:
                st.add(Z, t, 0)
            return (t, 0)
        r = (t, 0)
        st.add(t, a[0], st.ub(b) + a[1])
        st.add(a[0], t, -st.lb(b) - a[1])
        st.add(t, b[0], st.ub(a) + b[1])
        st.add(b[0], t, -st.lb(a) - b[1])
        if uns:
            st.add(Z, t, 0)
        for sy, o in st.pairs.get(a[0], ()):
            if o == b[0]:
                st.add(t, sy, a[1] + b[1])
                st.add(sy, t, -a[1] - b[1])
        for x, y in ((a, b), (b, a)):
            for sy, o in st.pairs.get(x[0], ()):
                st.add(t, sy, st.get(y[0], o) + x[1] + y[1])
                st.add(sy, t, st.get(o, y[0]) - x[1] - y[1])
        for k, d in list(st.defs.items()):
            # the same sum as another one
            if d[0] == '+' and k != t:
                for x, y in ((a, b), (b, a)):
                    if st.le(d[1], x) and st.le(x, d[1]) and st.le(d[2], y) and st.le(y, d[2]):
                        st.add(t, k, 0)
                        st.add(k, t, 0)
        # (p - q) + q
        for x, y in ((a, b), (b, a)):
            d = st.defs.get(x[0])
            if d and d[0] == '-':
                c1, c2 = st.get(y[0], d[2][0]), st.get(d[2][0], y[0])
                st.add(t, d[1][0], d[1][1] + x[1] + c1 + y[1] - d[2][1])
                st.add(d[1][0], t, -d[1][1] - x[1] + c2 - y[1] + d[2][1])
            # r <= x with x = p - q
        for k, d in list(st.defs.items()):
            if d[0] == '-' and k != t:
                for x, y in ((a, b), (b, a)):
                    # x <= k + c , k = p - q  =>  x + y <= p - q + c + y
                    c = st.get(x[0], k)
                    if c < INF:
                        cy = st.get(y[0], d[2][0])
                        if cy < INF:
                            st.add(t, d[1][0], d[1][1] + c + x[1] + cy + y[1] - d[2][1])
        st.defs[t] = ('+', a, b)
        return r

    def sub(self, e, a, b, st, F):
        uns = trange(e.get('t'))[0] == 0 and isint(e.get('t'))
        if self.npos(a, st) or self.npos(b, st):
            return self.tmp(e, st, F, None)
        if b[0] == Z:
            if not uns or st.lb(a) >= b[1]:
                return (a[0], a[1] - b[1])
            return self.tmp(e, st, F, None)
        if a[0] == b[0] and (not uns or a[1] >= b[1]):
            return (Z, a[1] - b[1])
        t = '%se%d' % (F.pre, e['i'])
        if uns and not st.le(b, a) and not self.lesum(b, a, st):
            st.forget(t)
            st.add(Z, t, 0)
            if st.get(b[0], a[0]) + b[1] - a[1] <= 65536:
                # may be negative, then the result is huge
                st.add(t, Z, NPOS)
            return (t, 0)
        st.forget(t)
        st.add(t, Z, st.get(a[0], b[0]) + a[1] - b[1])
        st.add(Z, t, st.get(b[0], a[0]) + b[1] - a[1])
        st.add(t, a[0], a[1] - st.lb(b))
        st.add(a[0], t, st.ub(b) - a[1])
        # t = a - b and b known sum: (x + y) - x
        d = st.defs.get(a[0])
        if d and d[0] == '+' and a[1] == 0:
            for x, y in ((d[1], d[2]), (d[2], d[1])):
                if x[0] == b[0] or st.le(x, b) and st.le(b, x):
                    k = x[1] - b[1] if x[0] == b[0] else 0
                    st.add(t, y[0], y[1] + k)
                    st.add(y[0], t, -y[1] - k)
        for k, d in list(st.defs.items()):
            # the same difference as another one
            if d[0] == '-' and k != t and st.le(d[1], a) and st.le(a, d[1]) and st.le(d[2], b) and st.le(b, d[2]):
                st.add(t, k, 0)
                st.add(k, t, 0)
        st.defs[t] = ('-', self.named(a, st), self.named(b, st))
        return (t, 0)

    def named(self, v, st):
        """A variable of the same value as a temporary."""
        if not TEMP.match(v[0]):
            return v
        for x in sorted(self.terms(st), key=lambda x: (x[0] == 'g', x)):
            if not TEMP.match(x) and x[0] != '+' and x != Z and st.get(x, v[0]) + st.get(v[0], x) == 0:
                return (x, v[1] + st.get(v[0], x))
        return v

    def lesum(self, b, a, st):
        return False

    def len_of(self, p):
        return ('#' + p, 0)

    def seq(self, e, st, F):
        """Path of a string or container expression."""
        e = strip(e)
        if e is None:
            return None
        while e['k'] in ('cast',):
            e = e['e']
        p = self.path(e, F)
        if p is None and e['k'] in ('call', 'cond', 'ctor', 'idx') and SEQ.match(base_t(e.get('t', ''))):
            p = '%se%d' % (F.pre, e['i'])
        if p is not None:
            st.add(Z, '#' + p, 0)
            st.add('#' + p, Z, BIG)
            m = re.match(r'^std::array<.*, (\d+)>', base_t(e.get('t', '')))
            if m:
                st.add(Z, '#' + p, -int(m.group(1)))
        return p

    def ptr(self, e, st, F):
        """Pointer or iterator expression -> (region, term, const) or None."""
        e = strip(e)
        if e is None:
            return None
        k = e['k']
        t = e.get('t', '')
        n = arraylen(t)
        if k in ('ref', 'mem') and n is not None:
            p = self.path(e, F)
            return None if p is None else (('A', p, n), Z, 0)
        if k == 'idx' and n is not None:
            return (('A', '%se%d' % (F.pre, e['i']), n), Z, 0)
        if k == 'str':
            return (('L', len(e.get('s', '')) + 1), Z, 0)
        if k in ('cast',):
            a, b = self.elem(e.get('t', '')), self.elem(e['e'].get('t', ''))
            if a is not None and b is not None and a != b:
                p = self.ptr(e['e'], st, F)
                if p is not None and p[0][0] == 'A' and p[1] == Z and p[2] == 0 and a == 1:
                    return (('A', p[0][1], p[0][2] * b), Z, 0)
                return None
            return self.ptr(e['e'], st, F)
        if k == 'un' and e['op'] == '&':
            x = strip(e['e'])
            if x['k'] == 'idx':
                b = self.ptr(x['b'], st, F)
                i = self.val(x['ix'], st, F)
                return self.padd(x, b, i, st, F)
            if x['k'] == 'call' and x.get('op') == '[]' and x.get('o') is not None and SEQ.match(base_t(x.get('ot', ''))):
                p = self.seq(x['o'], st, F)
                i = self.val(x['a'][0], st, F)
                if p is None or i is None:
                    return None
                return (('S', p), i[0], i[1])
            if x['k'] == 'call' and x.get('f', '').endswith('::front') and x.get('o') is not None and SEQ.match(base_t(x.get('ot', ''))):
                p = self.seq(x['o'], st, F)
                return None if p is None else (('S', p), Z, 0)
            if x['k'] == 'un' and x['op'] == '*':
                return self.ptr(x['e'], st, F)
            if x['k'] == 'call' and x.get('op') == '*' and x.get('o') is not None:
                return self.ptr(x['o'], st, F)
            p = self.path(x, F)
            if p is not None and (isint(x.get('t')) or x['k'] in ('ref', 'mem')):
                return (('A', p, 1), Z, 0)
            return None
        if k in ('ref', 'mem'):
            p = self.path(e, F)
            if p is None:
                return None
            b = st.base.get('o:' + p)
            return None if b is None else (b, 'o:' + p, 0)
        if k == 'un' and e['op'] in ('++', '--'):
            tt = '%se%d' % (F.pre, e['i'])
            b = st.base.get('o:' + tt)
            return None if b is None else (b, 'o:' + tt, 0)
        if k == 'un' and e['op'] == '*':
            p = self.path(e, F)
            b = st.base.get('o:' + p) if p else None
            return None if b is None else (b, 'o:' + p, 0)
        if k == 'bin' and e['op'] in ('+', '-') and isptr(t):
            x, y = e['x'], e['y']
            if isptr(y.get('t', '')) or arraylen(y.get('t', '')):
                x, y = y, x
            a = self.ptr(x, st, F)
            v = self.val(y, st, F)
            if e['op'] == '-':
                return self.psub(e, a, v, st, F)
            return self.padd(e, a, v, st, F)
        if k == 'call':
            f = e.get('f', '')
            n = f.rsplit('::', 1)[-1]
            o = e.get('o')
            if o is not None and SEQ.match(base_t(e.get('ot', ''))):
                if n in ('data', 'c_str', 'begin', 'cbegin'):
                    p = self.seq(o, st, F)
                    return None if p is None else (('S', p) if n in ('data', 'c_str') else ('I', p), Z, 0)
                if n in ('end', 'cend'):
                    p = self.seq(o, st, F)
                    return None if p is None else (('I', p), '#' + p, 0)
            if e.get('op') in ('+', '-') and isptr(t):
                ops = ([o] if o is not None else []) + e['a']
                if len(ops) == 2:
                    x, y = ops
                    if isptr(y.get('t', '')) and not isptr(x.get('t', '')):
                        x, y = y, x
                    a = self.ptr(x, st, F)
                    v = self.val(y, st, F)
                    return (self.psub if e['op'] == '-' else self.padd)(e, a, v, st, F)
            if e.get('op') in ('++', '--', '=', '+=', '-=') and o is not None:
                if e.get('op') in ('++', '--') and e['a']:
                    tt = '%se%d' % (F.pre, e['i'])
                    b = st.base.get('o:' + tt)
                    return None if b is None else (b, 'o:' + tt, 0)
                return self.ptr(o, st, F)
            tt = '%se%d' % (F.pre, e['i'])
            b = st.base.get('o:' + tt)
            return None if b is None else (b, 'o:' + tt, 0)
        if k == 'asg':
            return self.ptr(e['x'], st, F)
        if k == 'cond':
            tt = '%se%d' % (F.pre, e['i'])
            b = st.base.get('o:' + tt)
            return None if b is None else (b, 'o:' + tt, 0)
        if k == 'ctor' and len(e['a']) == 1 and isptr(t):
            # iterator to const_iterator
            return self.ptr(e['a'][0], st, F)
        return None

    @staticmethod
    def elem(t):
        t = base_t(t)
        m = re.match(r'^(.*?)\s*(\*|\[\d+\])$', t)
        if not m:
            return None
        b = base_t(m.group(1))
        return {'char': 1, 'unsigned char': 1, 'signed char': 1, 'void': 1, 'unsigned short': 2, 'char16_t': 2, 'short': 2,
                'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8}.get(b)

    def padd(self, e, a, v, st, F):
        if a is None or v is None:
            return None
        s = self.sum({'i': e['i'], 't': 'long'}, (a[1], a[2]), v, st, F)
        return (a[0], s[0], s[1])

    def psub(self, e, a, v, st, F):
        if a is None or v is None:
            return None
        s = self.sub({'i': e['i'], 't': 'long'}, (a[1], a[2]), v, st, F)
        return (a[0], s[0], s[1])

    def rlen(self, region, st):
        k = region[0]
        if k in ('S', 'I', 'R'):
            return ('#' + region[1], 0)
        if k == 'A':
            return (Z, region[2])
        if k == 'L':
            return (Z, region[1])
        return None

    # obligations ---------------------------------------------------------------------------------
    # An obligation is proved (1), missed although the operands are known to be related (0), or not decided (None).
    def check(self, ok, e, F, text, node):
        ok = 1 if ok is True else None if ok is False else ok
        k = (F.f.id, e.get('i'), text)
        if self.report is None:
            # before the loops are stable
            if ok == 0:
                self.near.add(k)
            return
        if ok is None and k in self.near:
            ok = 0
        self.report(F, e, ok, text, node)

    @staticmethod
    def slack(c):
        return 1 if c <= 0 else 0 if c <= 65536 or NPOS // 2 < c < INF else None

    def q(self, a, b, st, c=0):
        """a <= b + c"""
        if a is None or b is None:
            return None
        if not st.le(a, b, c) and a[0] in st.maybe:
            return 0
        r = self.slack(st.get(a[0], b[0]) + a[1] - b[1] - c)
        if r == 0 and FRESH.match(b[0]):
            return None     # nothing is known of an object that has no name
        if r == 0 and self.report is None and b[0][0] == '#' and st.get(a[0], b[0]) == st.get(a[0], Z) + st.get(Z, b[0]):
            return None     # a constant in the first round of a loop
        return r

    @staticmethod
    def conj(*qs):
        return 0 if 0 in qs else None if None in qs else 1

    def inbounds(self, p, st, room=1):
        """An access through p of `room` elements (a number or a linear expression)."""
        if p is None or room is None:
            return None
        ln = self.rlen(p[0], st)
        off = (p[1], p[2])
        if ln is None:
            return None
        low = self.q((Z, 0), off, st)
        if isinstance(room, int):
            return self.conj(low, self.q(off, ln, st, -room))
        if room[0] in st.maybe and not room[0] == Z:
            return 0
        c = self.sumslack(off, room, ln, st)
        # position and count are each known to be at most the size of the array
        return self.conj(low, 0 if p[0][0] == 'A' and 0 < c <= p[0][2] else self.slack(c))

    def within(self, p, e, st, F, node):
        """A character of the text that a parser was given a part of."""
        lim = self.limits.get(p[0][1]) if p is not None and p[0][0] in ('S', 'I') else None
        if lim is not None:
            self.check(self.conj(self.q((lim[0], 0), (p[1], p[2]), st), self.q((p[1], p[2]), (lim[1], -1), st)), e, F, 'character outside of the part', node)

    def sumle(self, x, y, z, st):
        return self.sumslack(x, y, z, st) <= 0

    def sumslack(self, x, y, z, st):
        """Least known c with x + y <= z + c."""
        if y[0] == Z:
            return st.get(x[0], z[0]) + x[1] + y[1] - z[1]
        if x[0] == Z:
            return st.get(y[0], z[0]) + x[1] + y[1] - z[1]
        best = min(st.ub(y) + x[1] + st.get(x[0], z[0]) - z[1], st.ub(x) + y[1] + st.get(y[0], z[0]) - z[1])
        for k, d in st.defs.items():
            if d[0] == '-':
                for u, w in ((x, y), (y, x)):
                    # w <= k = p - q, u <= q, p <= z
                    best = min(best, st.get(w[0], k) + w[1] + st.get(u[0], d[2][0]) + u[1] - d[2][1] +
                               st.get(d[1][0], z[0]) + d[1][1] - z[1])
            else:
                for u, w in ((d[1], d[2]), (d[2], d[1])):
                    # k = u + w with x <= u, y <= w, k <= z
                    best = min(best, st.get(x[0], u[0]) + x[1] - u[1] + st.get(y[0], w[0]) + y[1] - w[1] + st.get(k, z[0]) - z[1])
        return best

    # statements -----------------------------------------------------------------------------------
    def setptr(self, name, p, st):
        """name := p for a pointer variable."""
        o = 'o:' + name
        if p is None or p[1] != o or p[2]:
            # another object from now on
            for t in [t for t in self.terms(st) if t != o and self.under(t, name)]:
                st.forget(t)
        if p is None:
            st.forget(o)
            return
        if p[1] == o:
            st.shift(o, p[2])
            return
        df = st.defs.get(p[1]) if p[2] == 0 else None
        st.forget(o)
        st.base[o] = p[0]
        st.add(o, p[1], p[2])
        st.add(p[1], o, -p[2])
        if df and o not in (df[1][0], df[2][0]):
            st.defs[o] = df
        st.resum(o, (p[1], p[2]))

    def forget_object(self, st, p):
        """The value of p (and of what it contains) is unknown now."""
        for t in [t for t in self.terms(st) if self.under(t, p)]:
            st.forget(t)

    @staticmethod
    def terms(st):
        s = set(st.m)
        for r in st.m.values():
            s |= set(r)
        s |= set(st.base)
        s |= set(st.maybe) | set(st.defs) | set(st.flag)
        s.discard(Z)
        return s

    @staticmethod
    def under(t, p):
        u = t[1:] if t[0] == '#' else t[2:] if t.startswith('o:') else t
        return u == p or u.startswith(p + '.')

    def assign_expr(self, name, t, e, st, F):
        """Variable `name` of type t := expression."""
        bt = base_t(t)
        if isptr(t):
            if e is None:
                self.setptr(name, None, st)
            else:
                self.setptr(name, self.ptr(e, st, F), st)
            return
        if SEQ.match(bt):
            self.assign_seq(name, e, st, F)
            return
        if isint(t) or e is not None and self.val(e, st, F) is not None and not bt.startswith(('std::', 'vmime::')):
            v = self.val(e, st, F) if e is not None else None
            lo, hi = trange(t)
            if v is not None and not (st.ub(v) <= hi and st.lb(v) >= lo) and e is not None and not self.fits(e, t):
                v = None
            st.assign(name, v, (lo, hi))
            return
        self.forget_object(st, name)

    @staticmethod
    def fits(e, t):
        a, b = trange(e.get('t')), trange(t)
        return a[0] >= b[0] and a[1] <= b[1]

    def assign_seq(self, name, e, st, F):
        e = strip(e)
        n = None
        if e is not None:
            n = self.seqlen(e, st, F)
        t = '#' + name
        if n is None:
            st.forget(t)
        else:
            st.assign(t, n)
        for u in [u for u in self.terms(st) if u != t and self.under(u, name)]:
            st.forget(u)
        st.add(Z, t, 0)
        st.add(t, Z, BIG)

    def seqlen(self, e, st, F):
        """Length of a string/container valued expression."""
        e = strip(e)
        if e is None:
            return None
        while e['k'] == 'cast':
            e = e['e']
        k = e['k']
        if k == 'str':
            return (Z, len(e.get('s', '')))
        if k == 'ctor':
            a = [x for x in e['a'] if not ('allocator' in (x.get('t') or ''))]
            if not a:
                return (Z, 0)
            x = strip(a[0])
            if len(a) == 1:
                if SEQ.match(base_t(x.get('t', ''))):
                    return self.seqlen(x, st, F)
                if x['k'] == 'str':
                    return (Z, len(x.get('s', '')))
                if isint(x.get('t')) and not STRT.match(base_t(e.get('t', ''))):
                    return self.val(x, st, F)
                return None
            if len(a) == 2:
                p, q = self.ptr(a[0], st, F), self.ptr(a[1], st, F)
                if p is not None and q is not None and p[0] == q[0]:
                    return self.sub({'i': e['i'], 't': 'unsigned long'}, (q[1], q[2]), (p[1], p[2]), st, F)
                if isptr(a[0].get('t', '')) and isint(a[1].get('t')) or isint(a[0].get('t')):
                    return self.val(a[1] if isptr(a[0].get('t', '')) else a[0], st, F)
            return None
        if k == 'call' and e.get('o') is not None and e.get('f', '').endswith('::substr'):
            return None
        p = self.seq(e, st, F)
        return None if p is None else ('#' + p, 0)

    # interpretation --------------------------------------------------------------------------------
    hook = None         # called before each statement, and after each condition (with its truth)

    def run(self, f, st=None):
        """Analyses f as a root; returns the exit state."""
        State.pairs = {}
        F = self.frame = Frame(f, self.cfg(f), '', 'this', {}, 0)
        st = st or State()
        self.entry(f, F, st)
        return self.body(F, st)

    @staticmethod
    def constants(f):
        c = {-1, 0, 1}
        for n in f.nodes('call'):
            # the size of the buffer given to a reader
            for a in n['a']:
                if a is not None and base_t(a.get('t', '')) == 'unsigned long' and 1 < (a.get('cv') or 0) <= 1 << 20 and len(c) < 8:
                    c.add(a['cv'])
        return sorted(c)

    MAXSUMS = 8

    def sums(self, F, st):
        """The sums of variables that F computes, and the pairs of variables that count in opposite directions."""
        found = []

        def name(e):
            e = strip(e)
            while e is not None and e['k'] == 'cast':
                e = strip(e['e'])
            if e is None or not (e['k'] == 'ref' and e.get('dk') in ('local', 'param') or
                                 e['k'] == 'mem' and (e.get('b') or {}).get('k') == 'this'):
                return None
            t = e.get('t', '')
            p = self.path(e, F)
            return None if p is None else 'o:' + p if isptr(t) else p if isint(t) else None

        def want(x, y):
            if x and y and x != y and (x, y) not in found and (y, x) not in found:
                found.append((x, y))
        up, down = [], []
        for n in F.f.nodes('bin', 'call', 'un', 'asg', 'idx'):
            k, op = n['k'], n.get('op')
            if k == 'bin' and op == '+':
                x, y = strip(n['x']), strip(n['y'])
                want(name(x), name(y))
            elif k == 'call' and op == '+' and n.get('o') is not None and len(n['a']) == 1:
                want(name(n['o']), name(n['a'][0]))
            elif k in ('un', 'call') and op in ('++', '--'):
                v = name(n['e'] if k == 'un' else n.get('o'))
                if v:
                    (up if op == '++' else down).append(v)
            elif k == 'asg' and op in ('+', '-', '+=', '-='):
                v = name(n['x'])
                if v:
                    (up if op[0] == '+' else down).append(v)
                    if op[0] == '+':
                        want(v, name(n['y']))
        for x in up:
            for y in down:
                want(x, y)
        for x, y in found[:self.MAXSUMS]:
            State.pair(x, y)

    def entry(self, f, F, st):
        for p in f.params:
            t = p['t']
            name = 'v%d' % p['d']
            if isint(t):
                st.assign(name, None, trange(t))
        self.limits = {}
        self.policy.entry(self, f, F, st)

    def body(self, F, st):
        cfg = F.cfg
        n = len(cfg.nodes)
        order = self.rpo(cfg)
        self.sums(F, st)
        outer = State.thresholds
        State.thresholds = self.constants(F.f)
        states = {cfg.entry.i: st}
        count = {}
        heads = {x.i for x in cfg.nodes if x.kind == 'join'}
        self.stack.append(F.f)
        saved = self.report
        self.report = None
        import heapq
        pos = {x: i for i, x in enumerate(order)}
        work = [(pos[cfg.entry.i], cfg.entry.i)]
        queued = {cfg.entry.i}
        while work:
            _, i = heapq.heappop(work)
            queued.discard(i)
            node = cfg.nodes[i]
            for lab, j, s in self.step(node, states[i].copy(), F):
                if s is None:
                    continue
                old = states.get(j)
                if old is None:
                    states[j] = s
                else:
                    if s.leq(old):
                        continue
                    c = count.get(j, 0)
                    w = j in heads and c >= 4
                    new = old.join(s, widen=w)
                    if j in heads:
                        count[j] = c + 1
                        if c > 40:
                            new = State()
                    if new.leq(old):
                        continue
                    states[j] = new
                if j not in queued:
                    queued.add(j)
                    heapq.heappush(work, (pos.get(j, n), j))
        # decreasing iterations
        for _ in range(2):
            new = {cfg.entry.i: st}
            for i in order:
                if i not in states or i not in new and i != cfg.entry.i:
                    continue
                src = new.get(i) if i in new else states[i]
                if i in heads:
                    # keep the stable part of the invariant
                    src = states[i]
                for lab, j, s in self.step(cfg.nodes[i], src.copy(), F):
                    if s is None:
                        continue
                    new[j] = s if j not in new else new[j].join(s)
            for i in heads:
                if i in new and i in states:
                    # the new state is the image of the old one: still an invariant
                    m = states[i].copy()
                    ok = True
                    for x, r in new[i].m.items():
                        for y, c in r.items():
                            ok = ok and m.add(x, y, c)
                    if ok:
                        new[i] = m
            if cfg.exit.i in states and cfg.exit.i not in new:
                pass
            states = new
        self.report = saved
        self.final = states
        if not F.depth:
            self.final0 = states
        if self.report is not None:
            for i in order:
                if i in states:
                    self.step(cfg.nodes[i], states[i].copy(), F)
        self.stack.pop()
        State.thresholds = outer
        return states.get(cfg.exit.i)

    @staticmethod
    def rpo(cfg):
        """Topological order in which the nodes of a loop follow each other (weak topological order)."""
        succ = {n.i: [j for _, j in n.succ] for n in cfg.nodes}

        def sccs(nodes, roots):
            """Strongly connected components of the subgraph, in topological order."""
            num, low, on, stack, out = {}, {}, set(), [], []
            for r in roots:
                if r in num:
                    continue
                num[r] = low[r] = len(num)
                stack.append(r)
                on.add(r)
                work = [(r, iter(succ[r]))]
                while work:
                    i, it = work[-1]
                    for j in it:
                        if j not in nodes:
                            continue
                        if j not in num:
                            num[j] = low[j] = len(num)
                            stack.append(j)
                            on.add(j)
                            work.append((j, iter(succ[j])))
                            break
                        if j in on:
                            low[i] = min(low[i], num[j])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[i])
                        if low[i] == num[i]:
                            c = []
                            while True:
                                x = stack.pop()
                                on.discard(x)
                                c.append(x)
                                if x == i:
                                    break
                            out.append((i, c))
            return out[::-1]

        def order(nodes, roots):
            res = []
            for root, c in sccs(nodes, roots):
                # the first node reached is the head of the component
                res.append(root)
                if len(c) > 1:
                    inner = set(c) - {root}
                    res += order(inner, [j for j in succ[root] if j in inner] + sorted(inner))
            return res
        return order(set(succ), [cfg.entry.i])

    def step(self, node, st, F):
        """Successor states of a node, without what is not used any more."""
        if st.pairs and not st.saturate():
            return []
        out = self.step1(node, st, F)
        if F.f not in self.dead:
            self.dead[F.f] = liveness(F.cfg, F.f)
        dead = self.dead[F.f]
        for lab, j, s in out:
            if s is not None and node.kind == 'br' and s.pairs and not s.saturate():
                continue
            d = dead.get((node.i, j))
            if s is not None and d:
                names = {'%s%s%d' % (F.pre, k, i) for k, i in d}
                for t in self.terms(s):
                    u = t[1:] if t[0] == '#' else t[2:] if t.startswith('o:') else t
                    k = u.find('.')
                    if (u if k < 0 else u[:k]) in names:
                        if TEMP.match(t):
                            for n, df in list(s.defs.items()):
                                if t in (df[1][0], df[2][0]):
                                    s.defs[n] = (df[0],) + tuple(self.named(x, s) if x[0] == t else x for x in df[1:])
                        s.forget(t)
        return out

    def step1(self, node, st, F):
        self.steps += 1
        k = node.kind
        e = node.e
        if k == 'br':
            out = []
            for lab, j in node.succ:
                s = st.copy()
                if node.x == 'rfor':
                    out.append((lab, j, s))
                    continue
                ok = self.assume(e, lab == 'T', s, F)
                if ok and self.hook is not None:
                    self.hook(self, node, e, s, F, lab == 'T')
                out.append((lab, j, s if ok else None))
            return out
        if k == 'sw':
            out = []
            for lab, j in node.succ:
                s = st.copy()
                ok = True
                v = self.val(e, s, F)
                if v is not None and isinstance(lab, tuple):
                    if lab[0] == 'case' and lab[1] is not None:
                        ok = s.addle(v, (Z, lab[1])) and s.addle((Z, lab[1]), v)
                out.append((lab, j, s if ok else None))
            return out
        pre = st
        if any(l == 'X' for l, _ in node.succ):
            pre = st.copy()
        st = self.exec(node, st, F)
        out = []
        for lab, j in node.succ:
            if lab == 'X':
                if st is None or k != 'call':
                    out.append((lab, j, pre))
                else:
                    # what the call may have modified is unknown
                    out.append((lab, j, pre.join(st)))
            else:
                out.append((lab, j, st if st is None else st.copy()))
        return out

    def exec(self, node, st, F):
        k = node.kind
        e = node.e
        if self.hook is not None:
            self.hook(self, node, e, st, F)
        if k == 'decl':
            v = node.x
            name = '%sv%d' % (F.pre, v['d'])
            if v.get('isref') and v.get('init') is not None:
                p = self.path(v['init'], F)
                if p is None and SEQ.match(base_t(v['t'])):
                    self.assign_seq(name, v['init'], st, F)
                elif p is None:
                    self.forget_object(st, name)
                    if isint(v['t']):
                        st.assign(name, self.val(v['init'], st, F), trange(v['t']))
                else:
                    F.bind[v['d']] = p
                return st
            if v.get('init') is None and SEQ.match(base_t(v['t'])):
                st.assign('#' + name, (Z, 0))
                return st
            if v.get('static'):
                return st
            self.forget_extra(st, name, v['t'])
            self.assign_expr(name, v['t'], v.get('init'), st, F)
            return st
        if k == 'minit':
            name = 'this.' + node.x.rsplit('::', 1)[-1]
            if F.this:
                name = F.this + '.' + node.x.rsplit('::', 1)[-1]
            self.assign_expr(name, self.fieldtype(F.f.cls, node.x), e, st, F)
            return st
        if k == 'asg':
            return self.do_asg(node, e, st, F)
        if k == 'inc':
            return self.do_inc(e, e['e'], 1 if e['op'] == '++' else -1, st, F, node, post=bool(e.get('post')))
        if k == 'setv':
            st.assign('%se%d' % (F.pre, e['i']), (Z, node.x))
            return st
        if k == 'sel':
            name = '%se%d' % (F.pre, e['i'])
            if isptr(e.get('t', '')):
                self.setptr(name, self.ptr(node.x, st, F), st)
            elif SEQ.match(base_t(e.get('t', ''))):
                self.assign_seq(name, node.x, st, F)
            else:
                st.assign(name, self.val(node.x, st, F), trange(e.get('t')))
            return st
        if k == 'idx':
            b = self.ptr(e['b'], st, F)
            v = self.val(e['ix'], st, F)
            p = self.padd({'i': -e['i']}, b, v, st, F) if b is not None and v is not None else None
            room = 0 if b is not None and b[0][0] == 'S' and self.elem(e['b'].get('t', '')) == 1 and not e.get('lv') else 1
            self.check(self.inbounds(p, st, 0 if b is not None and b[0][0] == 'S' or e['i'] in F.cfg.addr else 1), e, F, 'index', node)
            if e['i'] not in F.cfg.addr:
                self.within(p, e, st, F, node)
            self.table(e, b, st, F)
            return st
        if k == 'deref':
            if e['k'] == 'mem' or not isptr(e['e'].get('t', '')):
                return st
            el = self.elem(e['e'].get('t', ''))
            if el is None:
                return st
            p = self.ptr(e['e'], st, F)
            if p is None and self.outparam(e['e'], F):
                return st
            self.check(self.inbounds(p, st, 0 if p is not None and p[0][0] == 'S' else 1), e, F, 'pointer access', node)
            self.within(p, e, st, F, node)
            return st
        if k in ('call', 'ctor'):
            return self.do_call(node, e, st, F)
        if k == 'ret':
            self.do_ret(node, e, st, F)
            return st
        if k == 'join' and node.x == 'loop':
            return st
        return st

    def forget_extra(self, st, name, t):
        pass

    def fieldtype(self, cls, m):
        r = self.P.records.get(cls or '')
        for x in (r or {}).get('fields', ()):
            if x['n'] == m.rsplit('::', 1)[-1]:
                return x['t']
        return ''

    def table(self, e, b, st, F):
        """Values of constant tables."""
        x = strip(e['b'])
        if x['k'] not in ('ref', 'mem') or not isint(e.get('t')):
            return
        for g in self.P.globals.values():
            if g.get('val') and isinstance(g['val'], list) and g['t'].startswith('const') and (
                    g['q'] == x.get('q') or g.get('slocal') and g.get('fn') == F.f.id and g['q'] == x.get('n')) and \
                    all(isinstance(v, int) for v in g['val']):
                self.rng(e, st, F, min(g['val']), max(g['val']))
                return

    @staticmethod
    def outparam(e, F):
        """*newPosition: a pointer to a single object passed by the caller."""
        e = strip(e)
        return e['k'] == 'ref' and e.get('dk') == 'param'

    def do_asg(self, node, e, st, F):
        op = e.get('op') or '='
        x, y = e['x'], e['y']
        name = self.path(x, F)
        t = x.get('t', '')
        if op == '=':
            if name is None:
                return st
            if name.startswith('o:'):
                return st
            if name.endswith('.*') and isint(t):
                self.policy.stored(self, e, name, self.val(y, st, F), st, F, node)
            self.assign_expr(name, t, y, st, F)
            if not isptr(t) and not isint(t):
                pass
            return st
        # compound
        if isptr(t):
            p = self.ptr(x, st, F)
            v = self.val(y, st, F)
            if name is None:
                return st
            if p is None or v is None:
                self.setptr(name, None, st)
                return st
            r = (self.padd if op[0] == '+' else self.psub)({'i': e['i']}, p, v, st, F)
            todo = st.step('o:' + name, op[0], v)
            self.setptr(name, r, st)
            st.stepped(todo)
            return st
        if name is None:
            return st
        fake = {'k': 'bin', 'op': op.rstrip('='), 'x': x, 'y': y, 't': t, 'i': e['i'], 'l': e.get('l')}
        v = self.val(fake, st, F)
        lo, hi = trange(t)
        if v is not None and not (st.ub(v) <= hi and st.lb(v) >= lo) and (hi < INF):
            v = None
        todo = st.step(name, op[0], self.val(y, st, F)) if v is not None and op[0] in '+-' else ()
        st.assign(name, v, (lo, hi))
        st.stepped(todo)
        return st

    def do_inc(self, e, x, d, st, F, node, post):
        name = self.path(x, F)
        tmp = '%se%d' % (F.pre, e['i'])
        t = x.get('t', '')
        if name is None:
            return st
        if isptr(t):
            p = self.ptr(x, st, F)
            self.setptr(name, None if p is None else (p[0], p[1], p[2] + d), st)
            if p is None:
                st.forget('o:' + tmp)
            else:
                self.setptr(tmp, (p[0], 'o:' + name, -d if post else 0), st)
            return st
        v = self.val(x, st, F)
        lo, hi = trange(t)
        if v is None:
            st.assign(name, None, (lo, hi))
            st.forget(tmp)
            return st
        if d < 0 and lo == 0 and st.lb(v) < 1 or v[0] in st.maybe:
            old = v if post else None
            st.assign(tmp, old, (lo, hi))
            st.assign(name, None, (lo, NPOS if hi == INF else hi))
            return st
        if hi < INF and st.ub(v) + d > hi and hi <= 65535:
            st.assign(tmp, v if post else None, (lo, hi))
            st.assign(name, None, (lo, hi))
            return st
        st.shift(name, d)
        st.assign(tmp, (name, -d if post else 0))
        if lo > -INF:
            st.add(Z, name, -lo)
        return st

    def do_ret(self, node, e, st, F):
        if F.depth and e is not None:
            rt = F.f.d.get('rt', '')
            name = F.pre + 'ret'
            if isptr(rt):
                self.setptr(name, self.ptr(e, st, F), st)
            elif SEQ.match(base_t(rt)):
                self.assign_seq(name, e, st, F)
            elif isint(rt):
                st.assign(name, self.val(e, st, F), trange(rt))
        self.policy.at_return(self, node, e, st, F)

    # conditions -------------------------------------------------------------------------------------
    NEGOP = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
    SWAPOP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}

    def assume(self, e, truth, st, F):
        """Adds a condition; False when it cannot hold."""
        e = strip(e)
        while e['k'] == 'cast':
            e = e['e']
        if e.get('cv') is not None:
            return bool(e['cv']) == truth
        if e['k'] == 'un' and e['op'] == '!':
            return self.assume(e['e'], not truth, st, F)
        if e['k'] == 'bin' and e['op'] in self.NEGOP:
            op = e['op'] if truth else self.NEGOP[e['op']]
            return self.rel(e['x'], op, e['y'], st, F)
        if e['k'] == 'call' and e.get('op') in self.NEGOP:
            ops = ([e['o']] if e.get('o') is not None else []) + e['a']
            if len(ops) == 2:
                op = e['op'] if truth else self.NEGOP[e['op']]
                return self.rel(ops[0], op, ops[1], st, F)
        if e['k'] == 'call' and e.get('f', '').endswith('::empty') and e.get('o') is not None and SEQ.match(base_t(e.get('ot', ''))):
            p = self.seq(e['o'], st, F)
            if p is not None:
                if truth:
                    return st.add('#' + p, Z, 0)
                return st.add(Z, '#' + p, -1)
        if isint(e.get('t')):
            v = self.val(e, st, F)
            if v is not None:
                fl = st.flag.get(v[0]) if v[1] == 0 else None
                if fl:
                    for x, y, c in fl[0 if truth else 1]:
                        if not st.add(x, y, c):
                            return False
                if truth:
                    if st.lb(v) >= 0:
                        return st.addle((Z, 1), v)
                    if st.ub(v) <= 0:
                        return st.addle(v, (Z, -1))
                    return True
                return st.addle(v, (Z, 0)) and st.addle((Z, 0), v)
        return True

    def nonzero(self, x, y, st, F):
        """x == y where y is a character other than NUL: x is inside the string."""
        for a, b in ((x, y), (y, x)):
            while a['k'] in ('cast', 'defarg'):
                a = a['e']
            if not b.get('cv'):
                continue
            p = None
            if a['k'] == 'idx':
                p = self.padd({'i': -a['i']}, self.ptr(a['b'], st, F), self.val(a['ix'], st, F), st, F)
            elif a['k'] == 'un' and a['op'] == '*':
                p = self.ptr(a['e'], st, F)
            elif a['k'] == 'call' and a.get('op') == '[]' and a.get('o') is not None and STRT.match(base_t(a.get('ot', ''))):
                q, v = self.seq(a['o'], st, F), self.val(a['a'][0], st, F)
                if q is not None and v is not None:
                    p = (('S', q), v[0], v[1])
            if p is not None and p[0][0] == 'S' and not st.addle((p[1], p[2]), self.rlen(p[0], st), -1):
                return False
        return True

    def rel(self, x, op, y, st, F):
        if op == '==' and not self.nonzero(x, y, st, F):
            return False
        tx, ty = x.get('t', ''), y.get('t', '')
        if isptr(tx) or isptr(ty) or arraylen(tx) or arraylen(ty):
            a, b = self.ptr(x, st, F), self.ptr(y, st, F)
            if a is None or b is None or a[0][1:] != b[0][1:]:
                return True
            return self.relv((a[1], a[2]), op, (b[1], b[2]), st)
        if SEQ.match(base_t(tx)) or SEQ.match(base_t(ty)):
            a, b = self.seqlen(x, st, F), self.seqlen(y, st, F)
            if a is not None and b is not None and op == '==':
                return st.addle(a, b) and st.addle(b, a)
            if a is not None and b == (Z, 0) and op == '!=':
                return st.addle((Z, 1), a)
            return True
        a, b = self.val(x, st, F), self.val(y, st, F)
        if a is None or b is None:
            return True
        # npos
        if self.npos(a, st) or self.npos(b, st):
            if b[0] == Z and b[1] == NPOS and a[0] in st.maybe:
                return self.decide(a[0], op in ('!=', '<'), st) if op in ('==', '!=', '<', '>=') else True
            if a[0] == Z and a[1] == NPOS and b[0] in st.maybe:
                return self.decide(b[0], op in ('!=', '>'), st) if op in ('==', '!=', '>', '<=') else True
            if a[0] in st.maybe and b[0] not in st.maybe and (op in ('<', '<=', '==') and st.ub(b) <= 2 * BIG):
                if not self.decide(a[0], True, st):
                    return False
            elif b[0] in st.maybe and a[0] not in st.maybe and (op in ('>', '>=', '==') and st.ub(a) <= 2 * BIG):
                if not self.decide(b[0], True, st):
                    return False
            elif op == '!=' or a[1] >= BIG or b[1] >= BIG:
                return True
        if not self.relv(a, op, b, st):
            return False
        # a condition on a difference relates its operands
        for t in (a[0], b[0]):
            d = st.defs.get(t)
            if d and d[0] == '-' and not (st.add(d[1][0], d[2][0], st.ub((t, 0)) + d[2][1] - d[1][1]) and
                                          st.add(d[2][0], d[1][0], d[1][1] - d[2][1] - st.lb((t, 0)))):
                return False
        return True

    def decide(self, t, found, st):
        """The result of a search is (not) npos."""
        cs, _, _ = st.maybe.pop(t)
        if found:
            for x, y, c in subst(cs, t):
                if not st.add(x, y, c):
                    return False
            for k, d in list(st.defs.items()):
                if d[0] == '-' and d[1][0] == t:
                    pass
            return True
        return True

    def relv(self, a, op, b, st):
        if op == '==':
            return st.addle(a, b) and st.addle(b, a)
        if op == '!=':
            if a[0] == b[0]:
                return a[1] != b[1]
            if st.le(a, b) and st.le(b, a):
                return False
            if st.le(a, b):
                return st.addle(a, b, -1)
            if st.le(b, a):
                return st.addle(b, a, -1)
            return True
        if op == '<':
            return st.addle(a, b, -1)
        if op == '<=':
            return st.addle(a, b)
        if op == '>':
            return st.addle(b, a, -1)
        return st.addle(b, a)

    # calls ------------------------------------------------------------------------------------------
    def do_call(self, node, e, st, F):
        f = e.get('f', '')
        n = f.rsplit('::', 1)[-1]
        ot = base_t(e.get('ot', '') or '')
        o = e.get('o')
        res = '%se%d' % (F.pre, e['i'])
        if e['k'] == 'call' and o is not None and SEQ.match(ot):
            return self.seq_call(node, e, n, o, res, st, F)
        if e['k'] == 'call' and e.get('op') in ('*', '->', '[]') and o is not None and (ITT.match(ot)):
            p = self.ptr(o, st, F)
            if e.get('op') == '[]':
                v = self.val(e['a'][0], st, F)
                p = self.padd({'i': -e['i']}, p, v, st, F) if p is not None and v is not None else None
            self.check(self.inbounds(p, st, 1), e, F, 'iterator access', node)
            self.within(p, e, st, F, node)
            self.clear_res(res, e, st)
            return st
        if e['k'] == 'call' and e.get('op') in ('++', '--') and o is not None and ITT.match(ot):
            return self.do_inc(e, o, 1 if e['op'] == '++' else -1, st, F, node, post=bool(e['a']))
        if e['k'] == 'call' and e.get('op') in ('+=', '-=') and o is not None and ITT.match(ot):
            name = self.path(o, F)
            p, v = self.ptr(o, st, F), self.val(e['a'][0], st, F)
            if name is not None:
                self.setptr(name, None if p is None or v is None else (self.padd if e['op'] == '+=' else self.psub)(
                    {'i': e['i']}, p, v, st, F), st)
            return st
        if e['k'] == 'call' and e.get('op') == '=' and o is not None and ITT.match(ot):
            name = self.path(o, F)
            if name is not None:
                self.setptr(name, self.ptr(e['a'][0], st, F), st)
            return st
        if e['k'] == 'call' and e.get('op') == '-' and len(([o] if o is not None else []) + e['a']) == 2:
            a, b = ([o] if o is not None else []) + e['a']
            if isptr(a.get('t', '')) and isptr(b.get('t', '')):
                p, q = self.ptr(a, st, F), self.ptr(b, st, F)
                st.forget(res)
                if p is not None and q is not None and p[0] == q[0]:
                    v = self.sub({'i': e['i'], 't': 'long'}, (p[1], p[2]), (q[1], q[2]), st, F)
                    st.assign(res, v)
                return st
        if n in ('min', 'max') and f.startswith('std::') and len(e['a']) == 2:
            a, b = self.val(e['a'][0], st, F), self.val(e['a'][1], st, F)
            st.forget(res)
            s = 1 if n == 'min' else -1
            for v in (a, b):
                if v is not None and v[1] == 0 and st.defs.get(v[0], ' ')[0] == '-':
                    st.assign('d:' + v[0], v)       # outlives the temporary
                if v is not None:
                    if s == 1:
                        st.addle((res, 0), v)
                    else:
                        st.addle(v, (res, 0))
            if a is not None and b is not None:
                if s == 1:
                    st.addle((Z, min(st.lb(a), st.lb(b))) if min(st.lb(a), st.lb(b)) > -INF else (res, 0), (res, 0))
                elif max(st.ub(a), st.ub(b)) < INF:
                    st.addle((res, 0), (Z, max(st.ub(a), st.ub(b))))
            lo, hi = trange(e.get('t'))
            if lo > -INF:
                st.add(Z, res, -lo)
            return st
        if n in ('memcpy', 'memmove', 'memset', 'memcmp', 'strncmp', 'strncpy') and len(e['a']) == 3:
            cnt = self.val(e['a'][2], st, F)
            for a in e['a'][:2] if n != 'memset' else e['a'][:1]:
                if n in ('strncmp', 'strncpy') and a is e['a'][1]:
                    continue
                p = self.ptr(a, st, F)
                self.check(self.inbounds(p, st, cnt), e, F, n, node)
            return st
        if n == 'copy' and f.startswith('std::') and len(e['a']) == 3:
            p, q, d = (self.ptr(a, st, F) for a in e['a'])
            dt = base_t(e['a'][2].get('t', ''))
            ok = self.range_ok(p, q, st)
            if isptr(dt) and p is not None and q is not None and p[0] == q[0]:
                ln = self.sub({'i': -e['i'], 't': 'long'}, (q[1], q[2]), (p[1], p[2]), st, F)
                ok = self.conj(ok, self.inbounds(d, st, ln))
            self.check(ok, e, F, n, node)
            return st
        if n in ('find', 'search', 'lower_bound', 'find_if') and f.startswith('std::') and len(e['a']) >= 3:
            p, q = self.ptr(e['a'][0], st, F), self.ptr(e['a'][1], st, F)
            if p is not None and q is not None and p[0] == q[0]:
                self.setptr(res, (p[0], q[1], q[2]), st)
                st.forget('o:' + res)
                st.base['o:' + res] = p[0]
                st.addle((p[1], p[2]), ('o:' + res, 0))
                st.addle(('o:' + res, 0), (q[1], q[2]))
            else:
                st.forget('o:' + res)
            return st
        if e['k'] == 'ctor':
            if SEQ.match(base_t(e.get('t', ''))) and not e.get('cp'):
                self.ctor_seq(node, e, st, F)
                self.assign_seq(res, e, st, F)
            return self.havoc(e, st, F)
        return self.lib_call(node, e, res, st, F)

    def clear_res(self, res, e, st):
        st.forget(res)
        st.forget('o:' + res)
        st.forget('#' + res)

    def ctor_seq(self, node, e, st, F):
        a = [x for x in e['a'] if 'allocator' not in (x.get('t') or '')]
        if len(a) == 2 and isptr(a[0].get('t', '')) and isptr(a[1].get('t', '')):
            self.check_range(node, e, a[0], a[1], st, F)
        elif len(a) == 2 and isptr(a[0].get('t', '')) and isint(a[1].get('t')):
            p, c = self.ptr(a[0], st, F), self.val(a[1], st, F)
            self.check(self.inbounds(p, st, c), e, F, 'string of (pointer, count)', node)

    def check_range(self, node, e, a, b, st, F):
        p, q = self.ptr(a, st, F), self.ptr(b, st, F)
        self.check(self.range_ok(p, q, st), e, F, 'range', node)

    def range_ok(self, p, q, st):
        if p is None or q is None or p[0][1:] != q[0][1:]:
            return None
        a, b = (p[1], p[2]), (q[1], q[2])
        return self.conj(self.q((Z, 0), a, st), self.q(a, b, st), self.q(b, self.rlen(q[0], st), st))

    FIND = ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of')

    def seq_call(self, node, e, n, o, res, st, F):
        p = self.seq(o, st, F)
        a = e['a']
        op = e.get('op')
        s = '#' + p if p is not None else None
        isstr = bool(STRT.match(base_t(e.get('ot', ''))))
        if n in ('size', 'length'):
            st.assign(res, (s, 0) if s else None, (0, INF))
            return st
        if op == '[]' or n == 'at':
            if n != 'at':
                v = self.val(a[0], st, F)
                if v is None and a and isinstance(a[0], dict) and p is not None and not isint(a[0].get('t')):
                    return st
                ok = None
                if p is not None and v is not None:
                    ok = self.conj(self.q((Z, 0), v, st), self.q(v, (s, 0), st, 0 if isstr or e['i'] in F.cfg.addr else -1))
                self.check(ok, e, F, 'index', node)
                if e['i'] not in F.cfg.addr and v is not None:
                    self.within((('S', p), v[0], v[1]), e, st, F, node)
            self.clear_res(res, e, st)
            return st
        if n in ('front', 'back'):
            self.check(self.q((Z, 1), (s, 0), st) if p is not None else None, e, F, n, node)
            self.clear_res(res, e, st)
            return st
        if n == 'pop_back':
            ok = self.q((Z, 1), (s, 0), st) if p is not None else None
            self.check(ok, e, F, n, node)
            if s:
                if ok:
                    st.shift(s, -1)
                else:
                    st.forget(s)
            return st
        if n in self.FIND and isstr:
            st.forget(res)
            st.add(Z, res, 0)
            if s:
                start = self.val(a[1], st, F) if len(a) > 1 and strip(a[1]) is not None else None
                last = n in ('rfind', 'find_last_of', 'find_last_not_of')
                nl = (Z, 1)
                if n in ('find', 'rfind'):
                    x = strip(a[0])
                    if SEQ.match(base_t(x.get('t', ''))) or x['k'] == 'str':
                        nl = self.seqlen(x, st, F)
                        if nl is not None and nl[0] != Z:
                            nl = (Z, max(0, int(st.lb(nl)) if st.lb(nl) > -INF else 0))
                        if nl is None:
                            nl = (Z, 0)
                    elif not isint(x.get('t')):
                        nl = (Z, 0)
                cs = [('?', s, -nl[1]), (Z, '?', 0), ('?', Z, BIG)]
                if start is not None:
                    if last:
                        if not self.npos(start, st):
                            cs.append(('?', start[0], start[1]))
                    elif not self.npos(start, st):
                        cs.append((start[0], '?', -start[1]))
                st.maybe[res] = (tuple(cs), 'find', frozenset(t for c in cs for t in c[:2]) - {'?', Z})
            return st
        if n == 'substr':
            # throws unless the position is inside the string: length of the result
            pos = self.val(a[0], st, F) if a else (Z, 0)
            cnt = self.val(a[1], st, F) if len(a) > 1 and strip(a[1]) is not None else None
            t = '#' + res
            st.forget(t)
            st.add(Z, t, 0)
            st.add(t, Z, BIG)
            if s:
                st.add(t, s, 0)
                if pos is not None and not self.npos(pos, st):
                    st.addle(pos, (s, 0))
                    if pos[0] == Z:
                        st.add(t, s, -pos[1])
                    if cnt is None or cnt[0] == Z and cnt[1] >= BIG:
                        if pos[0] == Z:
                            st.add(s, t, pos[1])
                    elif not self.npos(cnt, st):
                        st.addle((t, 0), cnt)
                        if self.sumle(pos, cnt, (s, 0), st):
                            st.addle(cnt, (t, 0))
            return st
        if n in ('begin', 'end', 'cbegin', 'cend', 'data', 'c_str'):
            # the whole value is given by ptr()
            return st
        if n == 'empty':
            st.assign(res, None, (0, 1))
            if s:
                st.flag[res] = (((s, Z, 0),), ((Z, s, -1),))
            return st
        if n in ('compare', 'capacity', 'max_size', 'get_allocator', 'reserve', 'rbegin', 'rend', 'crbegin', 'crend'):
            if n == 'compare':
                st.assign(res, None)
            return st
        # modifications
        if s is None:
            return st
        if n in ('push_back', 'emplace_back') or op == '+=' and isstr and a and isint(a[0].get('t')):
            self.forget_elems(st, p)
            st.shift(s, 1)
            return st
        if n == 'clear':
            self.forget_elems(st, p)
            st.assign(s, (Z, 0))
            return st
        if n in ('resize',):
            v = self.val(a[0], st, F)
            self.forget_elems(st, p)
            st.assign(s, v, (0, BIG))
            return st
        if op == '=' or n == 'assign' and len(a) == 1:
            self.assign_seq(p, a[0], st, F)
            return st
        if op == '+=' or n == 'append' or n == 'insert':
            if n in ('append', 'insert') and len(a) >= 2 and isptr(a[-2].get('t', '')) and isptr(a[-1].get('t', '')):
                self.check_range(node, e, a[-2], a[-1], st, F)
            elif n == 'append' and len(a) == 2 and isptr(a[0].get('t', '')) and isint(a[1].get('t')):
                q, c = self.ptr(a[0], st, F), self.val(a[1], st, F)
                self.check(self.inbounds(q, st, c), e, F, 'append of (pointer, count)', node)
            if n == 'insert' and a and isptr(a[0].get('t', '')):
                q = self.ptr(a[0], st, F)
                self.check(self.inbounds(q, st, 0) if q is not None and q[0][1] == p else None, e, F, 'insert position', node)
                if q is not None:
                    self.setptr(res, q, st)
            # grows
            t = s + "'"
            st.forget(t)
            st.add(s, t, 0)
            ln = self.seqlen(a[0], st, F) if len(a) == 1 else None
            if ln is not None and ln[0] != s:
                st.add(s, t, -max(0, st.lb(ln)) if st.lb(ln) > -INF else 0)
            old = [(x, c) for x, c in ((x, st.get(x, s)) for x in self.terms(st)) if c < INF and x not in (s, t)]
            extra = max(0, st.lb(ln)) if ln is not None and st.lb(ln) > -INF else 0
            st.forget(t)
            st.forget(s)
            for x, c in old:
                st.add(x, s, c - extra)
            st.add(Z, s, 0)
            st.add(s, Z, BIG)
            self.forget_elems(st, p)
            return st
        if n == 'erase':
            ok = True
            if a and isptr(a[0].get('t', '')):
                q = self.ptr(a[0], st, F)
                if len(a) == 1:
                    ok = self.inbounds(q, st, 1) if q is not None and q[0][1] == p else None
                    self.check(ok, e, F, 'erase position', node)
                    self.forget_elems(st, p)
                    if ok:
                        self.setptr(res, q, st)
                        st.shift(s, -1)
                        return st
                else:
                    self.check_range(node, e, a[0], a[1], st, F)
                    self.setptr(res, q, st)
            elif len(a) >= 1:
                # erase(pos, n) throws unless pos <= size
                pos = self.val(a[0], st, F)
                cnt = self.val(a[1], st, F) if len(a) > 1 and strip(a[1]) is not None else None
                self.forget_elems(st, p)
                if pos is not None and not self.npos(pos, st):
                    if pos[0] == s:
                        pass
                    elif cnt is None or self.npos(cnt, st):
                        st.assign(s, pos)
                        st.add(Z, s, 0)
                        return st
                    elif cnt[0] == Z and self.sumle(pos, cnt, (s, 0), st):
                        st.shift(s, -cnt[1])
                        return st
            old = [(x, c) for x, c in ((x, st.get(s, x)) for x in self.terms(st)) if c < INF and x != s]
            st.forget(s)
            for x, c in old:
                st.add(s, x, c)
            st.add(Z, s, 0)
            self.forget_elems(st, p)
            return st
        if n == 'swap':
            q = self.seq(a[0], st, F)
            st.forget(s)
            if q:
                st.forget('#' + q)
            return st
        if e.get('const'):
            return st
        st.forget(s)
        self.forget_elems(st, p)
        return st

    def forget_elems(self, st, p):
        for t in [t for t in self.terms(st) if self.under(t, p) and t != '#' + p]:
            if t.startswith('o:'):
                continue
            st.forget(t)

    def inlinable(self, e, F):
        ts = self.P.targets(e)
        if len(ts) == 1 and ts[0] not in self.stack and (self.policy.simple(ts[0]) or F.depth < self.MAXDEPTH and self.policy.helper(ts[0])):
            return ts[0]
        return None

    def lib_call(self, node, e, res, st, F):
        """A call to a function of the library or of a system library."""
        done = self.policy.call(self, node, e, res, st, F)
        if done is not None:
            return done
        f = self.inlinable(e, F)
        if f is not None:
            return self.inline(node, e, f, res, st, F)
        st2 = self.havoc(e, st, F)
        self.clear_res(res, e, st2)
        if isint(e.get('t')):
            st2.assign(res, None, trange(e.get('t')))
        self.policy.after(self, node, e, res, st2, F)
        return st2

    def havoc(self, e, st, F):
        """Forgets what a call may modify."""
        ts = self.P.targets(e)
        keep = self.policy.keep(self, st, F)
        mods = set()
        for t in ts:
            mods |= self.fx.mods(t)
        unknown = not ts and e.get('in') and e.get('virt')
        if mods or unknown:
            passed = set()
            for a in [e.get('o')] + list(e['a']):
                p = self.path(a, F) if a is not None else None
                if p is None and a is not None and a['k'] == 'un' and a['op'] == '&':
                    p = self.path(a['e'], F)
                if p is not None:
                    passed.add(p.split('.')[0])
            own = self.own(F)
            for t in self.terms(st):
                u = t[1:] if t[0] == '#' else t[2:] if t.startswith('o:') else t
                parts = u.split('.')
                if parts[0] in own and '*' not in parts and parts[0] not in passed:
                    continue
                if len(parts) > 1 and (parts[-1] in mods or any(x in mods for x in parts[1:])):
                    st.forget(t)
        for i, a in enumerate(e['a']):
            if a is None or i not in e.get('ra', ()):
                continue
            x = strip(a)
            while x['k'] == 'cast':
                x = x['e']
            if x['k'] == 'un' and x['op'] == '&':
                p = self.path(x['e'], F)
            else:
                p = self.path(x, F)
                if p is not None and isptr(x.get('t', '')) and not self.refparam(e, i):
                    # what it points to
                    self.forget_object(st, p + '.*')
                    continue
            if p is not None:
                self.forget_object(st, p)
        o = e.get('o')
        if e['k'] == 'call' and o is not None and not e.get('const') and not ts and not transparent(e):
            p = self.path(o, F)
            if p is not None and p != 'this':
                self.forget_object(st, p)
        for x, y in keep:
            st.addle(x, y)
        return st

    def own(self, F):
        """Local objects, which calls that do not get them do not modify."""
        if F.f not in self.owned:
            self.owned[F.f] = [v['d'] for n in F.f.nodes('decl') for v in n['v'] if not v.get('isref') and not v.get('static') and
                               not v['t'].rstrip().endswith(('*', '&'))]
        own = {'%sv%d' % (F.pre, d) for d in self.owned[F.f] if d not in F.bind}
        return own | self.own(F.outer) if F.outer else own

    def refparam(self, e, i):
        d = self.P.decl.get(e.get('id'))
        return d is not None and i < len(d['p']) and d['p'][i]['t'].rstrip().endswith('&')

    def inline(self, node, e, f, res, st, F):
        self.inlined.add(f)
        pre = '%sc%d/' % (F.pre, e['i'])
        this = None
        if e.get('o') is not None:
            this = self.path(e['o'], F)
        elif f.cls and not f.d.get('static'):
            this = F.this
        G = Frame(f, self.cfg(f), pre, this or pre + 'this', {}, F.depth + 1, F)
        for t in [t for t in self.terms(st) if pre in t]:
            st.forget(t)
        for i, p in enumerate(f.params):
            if i >= len(e['a']):
                continue
            a = e['a'][i]
            name = '%sv%d' % (pre, p['d'])
            t = p['t']
            if t.rstrip().endswith('&') or t.rstrip().endswith('&&'):
                q = self.path(a, F) if strip(a) is not None else None
                if q is None and SEQ.match(base_t(t)):
                    q = self.seq(a, st, F)
                if q is not None and strip(a).get('k') != 'call' or q is not None and SEQ.match(base_t(t)):
                    G.bind[p['d']] = q
                    continue
                if isptr(t):
                    self.setptr(name, self.ptr(a, st, F), st)
                elif isint(t):
                    st.assign(name, self.val(a, st, F), trange(t))
                continue
            if is_smart(t) and strip(a) is not None:
                # the same object, unless the parameter is assigned
                q = self.path(strip(a), F)
                if q is not None and not any(n['k'] == 'asg' and n['x'].get('d') == p['d'] or n['k'] == 'call' and not n.get('const') and
                                             (n.get('o') or {}).get('d') == p['d'] and not transparent(n)
                                             for n in f.nodes('asg', 'call')):
                    G.bind[p['d']] = q
                    continue
            if isptr(t):
                x = strip(a)
                if x['k'] == 'un' and x['op'] == '&':
                    q = self.path(x['e'], F)
                    if q is not None:
                        G.bind['%sv%d' % (pre, p['d'])] = q
                self.setptr(name, self.ptr(a, st, F), st)
            elif SEQ.match(base_t(t)):
                self.assign_seq(name, a, st, F)
            elif isint(t):
                v = self.val(a, st, F)
                lo, hi = trange(t)
                if v is not None and not (st.ub(v) <= hi and st.lb(v) >= lo) and not self.fits(a, t):
                    v = None
                st.assign(name, v, (lo, hi))
        out = self.body(G, st)
        if out is None:
            return None
        out = out.copy()
        r = pre + 'ret'
        self.clear_res(res, e, out)
        rt = f.d.get('rt', '')
        if isptr(rt):
            b = out.base.get('o:' + r)
            self.setptr(res, None if b is None else (b, 'o:' + r, 0), out)
        elif SEQ.match(base_t(rt)):
            out.assign('#' + res, ('#' + r, 0))
        elif isint(rt):
            out.assign(res, (r, 0))
        for t in [t for t in self.terms(out) if pre in t]:
            out.forget(t)
        return out
