"""Path-sensitive, interprocedural typestate analysis over the resolved CFGs.

A rule supplies an automaton (start state + transitions on events); the engine
propagates (automaton state, facts) along every CFG path, where the facts are
values of locals/fields in a finite domain (constants, nullness, intervals,
outcomes of earlier tests).  Infeasible combinations of branches are pruned
with those facts; callees that matter to the rule are entered through
memoised summaries, the rest are treated as opaque.  Nothing is executed and
no solver is involved: every operation is a table look-up in a finite domain.
"""
import heapq
import re

from .cfg import cfg_of
from .program import walk, SMART

MAXSTATES = 24

NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}

SMARTM = {'get'}
NOTHROW_STD = None


def is_smart(t):
    return bool(t) and bool(re.match(r'^(const )?std::(__)?(shared_ptr|unique_ptr|weak_ptr|shared_ptr_access)', t) or
                            '_ptr_access<' in t[:40])


def is_ptrish(t):
    return bool(t) and (t.rstrip().endswith('*') or is_smart(t))


def is_nullptr(e):
    if e is not None and (e.get('f', '').startswith('vmime::nullPtrType::') or e.get('q') == 'vmime::null'):
        return True
    while e is not None and e['k'] in ('cast', 'ctor', 'defarg'):
        if e['k'] == 'ctor':
            if len(e['a']) != 1:
                return False
            e = e['a'][0]
        else:
            e = e['e']
    return e is not None and (e['k'] in ('null', 'zero') or (e['k'] in ('int', 'ref') and e.get('cv') == 0))


def transparent(e):
    """Call that yields the identity of its (smart) pointer operand."""
    if e['k'] != 'call' or 'o' not in e:
        return False
    ot = e.get('ot', '')
    if e.get('op') in ('->', '*') and is_smart(ot):
        return True
    n = e.get('f', '').rsplit('::', 1)[-1]
    if is_smart(ot) and (n == 'get' or (n.startswith('operator bool'))):
        return True
    return False


ITER = re.compile(r'^(const )?(__gnu_cxx::__normal_iterator|std::_\w*iterator|std::__detail::_\w*iterator)')
CONT = re.compile(r'^(const )?std::(__\w+::)?(vector|deque|array)<')
VARP = re.compile(r'^v(\d+)')


def path_of(e, alias=None):
    """Canonical access path of an lvalue expression, or None."""
    if e is None:
        return None
    k = e['k']
    if k == 'ref':
        dk = e.get('dk')
        if dk in ('local', 'param', 'slocal'):
            d = e['d']
            if alias and d in alias:
                return alias[d]
            return 'v%d' % d
        if dk == 'global':
            return 'g:' + e.get('q', e['n'])
        return None
    if k == 'this':
        return 'this'
    if k == 'mem':
        if e.get('static'):
            return 'g:' + e['q']
        b = path_of(e['b'], alias)
        return None if b is None else b + '.' + e['n']
    if k == 'call':
        if transparent(e):
            return path_of(e['o'], alias)
        if e.get('op') == '=' and is_ptrish(e.get('ot')) and e.get('o') is not None:
            return path_of(e['o'], alias)
        op = e.get('op')
        if op in ('*', '->') and not e['a'] and ITER.match(e.get('ot', '')):
            b = path_of(e['o'], alias)
            return None if b is None else b + '.*'
        if len(e['a']) == 1 and CONT.match(e.get('ot', '')) and (op == '[]' or e.get('f', '').endswith('::at')):
            b = path_of(e['o'], alias)
            i = e['a'][0]
            while i['k'] == 'cast':
                i = i['e']
            if b is None:
                return None
            if i.get('cv') is not None:
                return '%s[%d]' % (b, i['cv'])
            i = path_of(i, alias)
            return None if i is None or not VARP.fullmatch(i) else '%s[%s]' % (b, i)
        return None
    if k == 'un' and e['op'] in ('*', '&'):
        return path_of(e['e'], alias)
    if k == 'cast':
        return path_of(e['e'], alias)
    if k == 'idx':
        b = path_of(e['b'], alias)
        if b is None or e.get('ix') is None:
            return None
        cv = e['ix'].get('cv')
        return None if cv is None else '%s[%d]' % (b, cv)
    if k == 'ctor' and e.get('cp') and len(e['a']) == 1:
        return path_of(e['a'][0], alias)
    if k == 'defarg':
        return path_of(e['e'], alias)
    return None




def hull(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])

    def excl(c, n):
        return n in c[2] or (c[0] is not None and n < c[0]) or (c[1] is not None and n > c[1])
    ne = frozenset(n for n in (set(a[2]) | set(b[2]) | {0}) if excl(a, n) and excl(b, n)
                   and (lo is None or n > lo) and (hi is None or n < hi))
    return (lo, hi, ne)


def collect(v, out):
    """Symbols occurring in a value."""
    if v[0] == 's':
        out.add(v)
        if v[1][0] == 'div':
            collect(v[1][1], out)
        if v[1][0] == 'and':
            collect(v[1][1], out)
            collect(v[1][2], out)
    elif v[0] == 'b':
        collect(v[2], out)
        collect(v[3], out)
    elif v[0] == 'n':
        collect(v[1], out)


def liveness(C):
    """Per node: which locals / temporaries may still be referenced."""
    L = getattr(C, 'live', None)
    if L is not None:
        return L
    nodes = C.nodes
    vbit, tbit = {}, {}
    uses_v, uses_t, defs_t = {}, {}, {}
    locs = set(p['d'] for p in C.func.params if 'd' in p)
    always = 0
    for n in nodes:
        x = n.x
        if n.kind == 'decl' and 'd' in x:
            locs.add(x['d'])
        if n.kind == 'catch' and x[1].get('d'):
            locs.add(x[1]['d'])
        if n.kind in ('call', 'ctor', 'setv', 'sel', 'inc') and n.e is not None:
            tbit.setdefault(n.e['i'], len(tbit))
    for d in sorted(locs):
        vbit[d] = len(vbit)
    for n in nodes:
        v = t = 0
        e = n.e
        roots = [e] if e is not None else []
        if n.kind == 'sel':
            roots = [n.x]
        if n.kind == 'setv':
            roots = []
        for r in roots:
            for y in walk(r):
                k = y.get('k')
                if k == 'ref' and y.get('d') in vbit:
                    v |= 1 << vbit[y['d']]
                elif k == 'lambda':
                    pass
                if y.get('i') in tbit:
                    t |= 1 << tbit[y['i']]
        if n.kind == 'decl' and n.x.get('isref') and e is not None:
            always |= v
        d = 0
        if n.kind in ('call', 'ctor', 'setv', 'sel', 'inc') and e is not None:
            d = 1 << tbit[e['i']]
            t &= ~d
        uses_v[n.i], uses_t[n.i], defs_t[n.i] = v, t, d
    # lambdas may capture anything: their variables stay live
    for y in C.func.nodes('lambda'):
        for z in walk(y):
            if z.get('k') == 'ref' and z.get('d') in vbit:
                always |= 1 << vbit[z['d']]
    # post-order
    order, state = [], {}
    st = [(C.entry.i, 0)]
    seen = {C.entry.i}
    while st:
        i, j = st.pop()
        if j < len(nodes[i].succ):
            st.append((i, j + 1))
            t = nodes[i].succ[j][1]
            if t not in seen:
                seen.add(t)
                st.append((t, 0))
        else:
            order.append(i)
    lv = {n.i: 0 for n in nodes}
    lt = {n.i: 0 for n in nodes}
    ch = True
    while ch:
        ch = False
        for i in order:
            v, t = uses_v[i] | always, 0
            for _l, s in nodes[i].succ:
                v |= lv[s]
                t |= lt[s]
            t = (t & ~defs_t[i]) | uses_t[i]
            if v != lv[i] or t != lt[i]:
                lv[i], lt[i] = v, t
                ch = True
    rpo = {}
    for k, i in enumerate(reversed(order)):
        rpo[i] = k
    npred = {}
    for n in nodes:
        for _l, s in n.succ:
            npred[s] = npred.get(s, 0) + 1
    joins = {i for i, c in npred.items() if c > 1}
    C.live = L = {'vars': lv, 'temps': lt, 'vbit': vbit, 'tbit': tbit, 'locals': locs, 'rpo': rpo, 'joins': joins}
    return L


class State:
    __slots__ = ('q', 'env', '_h')

    def __init__(self, q, env):
        self.q = q
        self.env = env          # dict, never mutated after construction
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.q, frozenset(self.env.items()))
        return self._h

    def with_q(self, q):
        return State(q, self.env)

    def set(self, *kv):
        env = dict(self.env)
        for k, v in kv:
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        return State(self.q, env)


FULL = (None, None, frozenset())


def c_intersect(c, op, n):
    """Constraint c (lo, hi, ne) refined with `x op n`; None when empty."""
    lo, hi, ne = c
    if op == '==':
        if (lo is not None and n < lo) or (hi is not None and n > hi) or n in ne:
            return None
        return (n, n, frozenset())
    if op == '!=':
        ne = ne | {n}
    elif op == '<':
        hi = n - 1 if hi is None or hi > n - 1 else hi
    elif op == '<=':
        hi = n if hi is None or hi > n else hi
    elif op == '>':
        lo = n + 1 if lo is None or lo < n + 1 else lo
    elif op == '>=':
        lo = n if lo is None or lo < n else lo
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return None
    ne = frozenset(x for x in ne if (lo is None or x > lo) and (hi is None or x < hi))
    return (lo, hi, ne)


def c_decide(c, op, n):
    t = c_intersect(c, op, n)
    f = c_intersect(c, NEG[op], n)
    if t is None and f is not None:
        return False
    if f is None and t is not None:
        return True
    return None


class Engine:
    """One engine per (program, rule)."""

    def __init__(self, P, rule, effects=None):
        self.P = P
        self.rule = rule
        self.memo = {}
        self.inprog = {}
        self.stack = []
        self.stats = {'functions': set(), 'states': 0, 'widened': 0, 'summaries': 0, 'events': 0}
        self.fx = effects
        self.rel = {}
        self.memval = getattr(rule, 'memval', None)
        self.depth_cap = getattr(rule, 'max_depth', 12)

    # values ----------------------------------------------------------------
    def val(self, e, st, C):
        if e is None:
            return ('s', ('none',))
        k = e['k']
        if k in ('int', 'chr', 'bool'):
            return ('c', e.get('cv', 0))
        if k == 'null':
            return ('c', 0)
        if k == 'zero':
            return ('c', 0)
        if k == 'str':
            return ('S', e.get('s', ''))
        if k == 'this':
            return ('nn', 'this')
        if k == 'defarg':
            return self.val(e['e'], st, C)
        if 'cv' in e and k != 'cast':
            return ('c', e['cv'])
        if k == 'cast':
            if e.get('ck') == 'dynamic':
                return ('s', ('dyn', C.func.id, e['i']))
            if 'cv' in e:
                return ('c', e['cv'])
            return self.val(e['e'], st, C)
        v = st.env.get(('e', e['i']))
        if v is not None:
            return v
        if k == 'call':
            if e.get('f', '').startswith('vmime::nullPtrType::'):
                return ('c', 0)
            if transparent(e):
                return self.val(e['o'], st, C)
            if e.get('op') == '=' and is_ptrish(e.get('ot')) and e.get('o') is not None:
                return self.val(e['o'], st, C)
            if e.get('op') in ('==', '!='):
                xs = ([e['o']] if e.get('o') is not None else []) + e['a']
                if len(xs) == 2:
                    for x, y in (xs, xs[::-1]):
                        if is_smart(x.get('t')) and is_nullptr(y):
                            return self.simp(('b', e['op'], self.val(x, st, C), ('c', 0)), st)
                    if is_smart(xs[0].get('t')) and is_smart(xs[1].get('t')) and ('e', e['i']) not in st.env:
                        return self.simp(('b', e['op'], self.val(xs[0], st, C), self.val(xs[1], st, C)), st)
            return ('s', ('call', C.func.id, e['i']))
        if k == 'ctor':
            if e.get('cp') and len(e['a']) == 1:
                return self.val(e['a'][0], st, C)
            if is_smart(e.get('t')):
                if not e['a']:
                    return ('c', 0)
                return self.val(e['a'][0], st, C)
            return ('s', ('ctor', C.func.id, e['i']))
        if k == 'new':
            return ('nn', (C.func.id, e['i']))
        if k == 'un':
            if e['op'] == '!':
                return self.vnot(self.val(e['e'], st, C), st)
            if e['op'] == '&':
                return ('nn', e['i'])
            if e['op'] == '*' and not getattr(self.rule, 'nostar', False):
                p = path_of(e, C.alias)
                if p:
                    return st.env.get(('p', p), ('s', ('p', p)))
            if e['op'] == '-':
                v = self.val(e['e'], st, C)
                if v[0] == 'c':
                    return ('c', -v[1])
            if e['op'] in ('++', '--'):
                return self.val(e['e'], st, C)
        if k == 'asg':
            return self.val(e['x'], st, C)
        if k == 'bin':
            op = e['op']
            if op == ',':
                return self.val(e['y'], st, C)
            if op in NEG:
                a, b = self.val(e['x'], st, C), self.val(e['y'], st, C)
                if a[0] in ('c', 'S', 'nn') and b[0] not in ('c', 'S', 'nn'):
                    a, b, op = b, a, SWAP[op]
                return self.simp(('b', op, a, b), st)
            if op in ('+', '-') and getattr(self.rule, 'count', False):
                a, b = self.val(e['x'], st, C), self.val(e['y'], st, C)
                if a[0] == 'c' and b[0] == 'c':
                    n = a[1] + b[1] if op == '+' else a[1] - b[1]
                    if n < 0 and 'unsigned' in e.get('t', '') or n < 0 and 'size_t' in e.get('t', ''):
                        n += 1 << 64
                    return ('c', n)
            if op == '&':
                a, b = self.val(e['x'], st, C), self.val(e['y'], st, C)
                return ('s', ('and', a, b))
            if op == '/':
                a, b = self.val(e['x'], st, C), self.val(e['y'], st, C)
                if a[0] == 's' and b[0] == 'c' and b[1] > 0:
                    return ('s', ('div', a, b[1]))
        if self.memval is not None and k == 'mem':
            v = self.memval(self, C, e, st)
            if v is not None:
                return v
        p = path_of(e, C.alias)
        if p:
            return st.env.get(('p', p), ('s', ('p', p)))
        return ('s', ('x', C.func.id, e['i']))

    def vnot(self, v, st):
        if v[0] == 'c':
            return ('c', 0 if v[1] else 1)
        if v[0] in ('S', 'nn'):
            return ('c', 0)
        if v[0] == 'b':
            return ('b', NEG[v[1]], v[2], v[3])
        if v[0] == 'n':
            return v[1]
        return ('n', v)

    def cons(self, s, st):
        c = st.env.get(('k', s))
        if c is not None:
            return c
        if s[1][0] == 'div':
            lo, hi, _ = self.cons(s[1][1], st)
            if lo is not None and lo >= 0:
                n = s[1][2]
                return (lo // n, None if hi is None else hi // n, frozenset())
        return FULL

    def simp(self, v, st):
        """Decide a comparison when the facts allow it."""
        _, op, a, b = v
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            return ('c', int({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]))
        if a == b and a[0] in ('s', 'nn', 'S'):
            return ('c', int(op in ('==', '<=', '>=')))
        if a[0] in ('nn', 'S') and b == ('c', 0):
            return ('c', int(op == '!='))
        if a[0] == 's' and b[0] == 'c':
            d = c_decide(self.cons(a, st), op, b[1])
            if d is not None:
                return ('c', int(d))
        if a[0] in ('b', 'n') and b[0] == 'c' and op in ('==', '!='):
            # (cmp) == 0/1
            if b[1] in (0, 1):
                pos = (op == '==') == (b[1] == 1)
                return a if pos else self.vnot(a, st)
        return v

    def assume(self, v, truth, st):
        """List of states in which v is true/false (0 or 1 states)."""
        if v[0] == 'c':
            return [st] if bool(v[1]) == truth else []
        if v[0] in ('S', 'nn'):
            return [st] if truth else []
        if v[0] == 'n':
            return self.assume(v[1], not truth, st)
        if v[0] == 's':
            c = c_intersect(self.cons(v, st), '!=' if truth else '==', 0)
            if c is None:
                return []
            return [st.set((('k', v), c))]
        if v[0] == 'b':
            w = self.simp(v, st)
            if w[0] != 'b':
                return self.assume(w, truth, st)
            op, a, b = w[1], w[2], w[3]
            if not truth:
                op = NEG[op]
            if a[0] == 's' and b[0] == 'c':
                c = c_intersect(self.cons(a, st), op, b[1])
                if c is None:
                    return []
                return [st.set((('k', a), c))]
            # relation between two symbols: remember the outcome
            key = ('r', a, b)
            old = st.env.get(key)
            new = {'==': '=', '!=': '<>', '<': '<', '<=': '<=', '>': '>', '>=': '>='}[op]
            sets = {'=': {'='}, '<>': {'<', '>'}, '<': {'<'}, '<=': {'<', '='}, '>': {'>'}, '>=': {'>', '='}}[new]
            cur = set(old) if old else {'<', '=', '>'}
            cur &= sets
            if not cur:
                return []
            return [st.set((key, ''.join(sorted(cur))))]
        return [st]

    def is_null(self, v, st):
        """True / False / None (unknown)."""
        if v[0] == 'c':
            return v[1] == 0
        if v[0] in ('nn', 'S'):
            return False
        if v[0] == 's':
            d = c_decide(self.cons(v, st), '==', 0)
            return d
        return None

    # invalidation ------------------------------------------------------------
    def assign(self, st, p, v):
        """Path p := v (v None: unknown)."""
        env = st.env
        ix = '[%s]' % p
        dead = [k for k in env if k[0] == 'p' and (k[1] == p or k[1].startswith(p + '.') or k[1].startswith(p + '[') or ix in k[1])]
        # initial symbols of sub-paths must not be resurrected
        env = dict(env)
        for k in dead:
            del env[k]
        for k in list(env):
            if k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p':
                q = k[1][1][1]
                if q == p or q.startswith(p + '.') or q.startswith(p + '[') or ix in q:
                    del env[k]
        if v is not None:
            env[('p', p)] = v
        return State(st.q, env)

    def havoc(self, st, p, C, node, tag=0):
        sym = ('s', ('h', C.func.id, node.i, tag, p))
        st = self.assign(st, p, sym)
        if ('k', sym) in st.env:
            st = st.set((('k', sym), None))
        return self.forget_rel(st, sym)

    @staticmethod
    def forget_rel(st, sym):
        """A symbol takes a new value: relations to its former one no longer hold."""
        old = [k for k in st.env if k[0] == 'r' and (k[1] == sym or k[2] == sym)]
        return st.set(*[(k, None) for k in old]) if old else st

    def havoc_sub(self, st, p):
        """Forget facts about members below p."""
        env = dict(st.env)
        for k in list(env):
            if k[0] == 'p' and (k[1].startswith(p + '.') or k[1].startswith(p + '[')):
                del env[k]
            elif k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p':
                q = k[1][1][1]
                if q.startswith(p + '.') or q.startswith(p + '['):
                    del env[k]
        return State(st.q, env)

    # relevance -----------------------------------------------------------------
    def relevant(self, f):
        """Does f (transitively) contain something the rule looks at?"""
        if self.rel:
            return self.rel.get(f, False)
        direct = {}
        calls = {}
        for g in self.P.fn:
            direct[g] = bool(self.rule.direct(self, g))
            cs = set()
            for c in g.calls():
                for t in self.P.targets(c):
                    cs.add(t)
            calls[g] = cs
        callers = {}
        for g, cs in calls.items():
            for t in cs:
                callers.setdefault(t, set()).add(g)
        rel = {g: d for g, d in direct.items()}
        work = [g for g, d in direct.items() if d]
        while work:
            g = work.pop()
            for c in callers.get(g, ()):
                if not rel.get(c):
                    if not self.rule.may_enter(self, c):
                        continue
                    rel[c] = True
                    work.append(c)
        self.rel = rel
        if not self.rel:
            self.rel = {None: False}
        return self.rel.get(f, False)

    # summaries --------------------------------------------------------------
    def summary(self, f, q, facts, depth):
        key = (f, q, facts)
        if key in self.memo:
            return self.memo[key]
        if key in self.inprog:
            self.inprog[key][1] = True
            return self.inprog[key][0]
        if depth > self.depth_cap:
            return frozenset([('n', None, None, q, frozenset())])
        cell = [frozenset(), False]
        self.inprog[key] = cell
        for _ in range(6):
            cell[1] = False
            out = self.run(f, q, dict(facts), depth)
            if out == cell[0] or not cell[1]:
                cell[0] = out
                break
            cell[0] = out
        del self.inprog[key]
        self.memo[key] = cell[0]
        self.stats['summaries'] += 1
        return cell[0]

    def run(self, f, q, env, depth=0, want_states=False):
        """Analyse f from state q; set of (exit kind, exc type, value, q', facts)."""
        C = cfg_of(f)
        L = liveness(C)
        rpo = L['rpo']
        self.stats['functions'].add(f)
        outs = set()
        start = State(q, env)
        seen = {C.entry.i: {start.key(): (None, None)}}
        heap = [(rpo[C.entry.i], 0, C.entry.i, start)]
        n = 0
        acc = {}
        frame = [f, None, None]
        cap = getattr(self.rule, 'max_states', MAXSTATES)
        pre = getattr(self.rule, 'pre', None)
        at_exit = getattr(self.rule, 'at_exit', None)
        self.stack.append(frame)
        while heap:
            _, _, ni, st = heapq.heappop(heap)
            node = C.nodes[ni]
            frame[1] = node
            frame[2] = (seen, st)
            if node is C.exit:
                if at_exit is not None:
                    at_exit(self, C, node, st)
                outs.add(('n', None, st.env.get(('ret',)), st.q, self.out_facts(st, f)))
                continue
            if node is C.xexit:
                outs.add(('x', st.env.get(('exc',)), None, st.q, self.out_facts(st, f)))
                continue
            if pre is not None:
                st = pre(self, C, node, st)
                if st is None:
                    continue
            for tgt, ns in self.step(C, node, st, depth):
                if tgt in L['joins']:
                    ns = self.gc(C, L, tgt, ns)
                d = seen.setdefault(tgt, {})
                k = ns.key()
                if k in d:
                    continue
                if len(d) >= cap:
                    ak = (tgt, ns.q, self.mergekey(ns))
                    old = acc.get(ak)
                    if old is not None:
                        ns = self.join(C, tgt, old, ns)
                        k = ns.key()
                        if k == old.key():
                            continue
                    acc[ak] = ns
                    self.stats['widened'] += 1
                    if k in d:
                        continue
                d[k] = (ni, st.key())
                self.stats['states'] += 1
                n += 1
                heapq.heappush(heap, (rpo.get(tgt, 0), n, tgt, ns))
        self.stack.pop()
        return self.squeeze(C, outs)

    def squeeze(self, C, outs):
        """Limit the number of exits that differ in facts only."""
        if len(outs) <= getattr(self.rule, 'max_outs', 8):
            return frozenset(outs)
        groups = {}
        for kind, exc, rv, q, of in outs:
            groups.setdefault((kind, exc, rv, q), []).append(of)
        res = set()
        for (kind, exc, rv, q), l in groups.items():
            if len(l) <= 2:
                for of in l:
                    res.add((kind, exc, rv, q, of))
                continue
            st = State(q, dict(l[0]))
            for of in l[1:]:
                st = self.join(C, 'exit', st, State(q, dict(of)))
            res.add((kind, exc, rv, q, frozenset(st.env.items())))
        return frozenset(res)

    def mergekey(self, st):
        keep = getattr(self.rule, 'keep', ())
        out = []
        for k, v in st.env.items():
            if k[0] in ('exc', 'ret', 'x') or (k[0] == 'p' and k[1] in keep and v[0] == 'c'):
                out.append((k, v))
            elif v[0] == 's' and v[1][0] == 'G' and k[0] in 'pe':
                out.append((k, v))
        return frozenset(out)

    def cons_of(self, v, st):
        """Interval of a value."""
        if v[0] == 'c':
            return (v[1], v[1], frozenset()) if isinstance(v[1], int) else FULL
        if v[0] in ('nn', 'S'):
            return (None, None, frozenset([0]))
        if v[0] == 's':
            return self.cons(v, st)
        if v[0] in ('b', 'n'):
            return (0, 1, frozenset())
        return FULL

    def join(self, C, tgt, a, b):
        """Least upper bound of two states (same automaton state)."""
        if a.env is b.env or a.env == b.env:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x == y:
                env[k] = x
                continue
            if k[0] in ('exc', 'ret', 'x'):
                env[k] = x or y
            elif k[0] in ('p', 'e'):
                if k[0] == 'p':
                    dx = x if x is not None else ('s', ('p', k[1]))
                    dy = y if y is not None else ('s', ('p', k[1]))
                else:
                    if x is None or y is None:
                        continue
                    dx, dy = x, y
                sym = ('s', ('j', tgt, k))
                env[k] = sym
                h = hull(self.cons_of(dx, a), self.cons_of(dy, b))
                if h != FULL:
                    env[('k', sym)] = h
            elif k[0] == 'k':
                if x is not None and y is not None:
                    h = hull(x, y)
                    if h != FULL and k not in env:
                        env[k] = h
        # constraints of join symbols computed above take precedence
        for k in list(env):
            if k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'j' and env.get(k[1][1][2]) == k[1] \
                    and k[1][1][1] == tgt:
                kk = k[1][1][2]
                x, y = a.env.get(kk), b.env.get(kk)
                if x != y:
                    dx = x if x is not None else ('s', ('p', kk[1]))
                    dy = y if y is not None else ('s', ('p', kk[1]))
                    h = hull(self.cons_of(dx, a), self.cons_of(dy, b))
                    if h == FULL:
                        del env[k]
                    else:
                        env[k] = h
        return State(a.q, env)

    def gc(self, C, L, tgt, st):
        """Drop facts about locals and temporaries that are dead at tgt."""
        lv = L['vars'][tgt]
        lt = L['temps'][tgt]
        env = {}
        syms = set()
        ks = []
        for k, v in st.env.items():
            t = k[0]
            if t == 'p':
                m = VARP.match(k[1])
                if m and int(m.group(1)) in L['locals'] and not (lv >> L['vbit'][int(m.group(1))]) & 1:
                    continue
                env[k] = v
                collect(v, syms)
            elif t == 'e':
                b = L['tbit'].get(k[1])
                if b is None or not (lt >> b) & 1:
                    continue
                env[k] = v
                collect(v, syms)
            elif t in ('k', 'r'):
                ks.append((k, v))
            else:
                env[k] = v
                if t == 'ret':
                    collect(v, syms)
        for k, v in ks:
            if k[0] == 'k' and self.symlive(k[1], syms, L, lv, lt, st):
                env[k] = v
            elif k[0] == 'r' and self.symlive(k[1], syms, L, lv, lt, st) and self.symlive(k[2], syms, L, lv, lt, st):
                env[k] = v
        if len(env) == len(st.env):
            return st
        return State(st.q, env)

    def symlive(self, s, syms, L, lv, lt, st):
        if s in syms:
            return True
        if s[0] != 's':
            return s[0] == 'c'
        t = s[1]
        if t[0] in ('G', 'N'):
            return True
        if t[0] == 'div':
            return self.symlive(t[1], syms, L, lv, lt, st)
        if t[0] == 'p':
            if ('p', t[1]) in st.env and st.env[('p', t[1])] != s:
                return False
            m = VARP.match(t[1])
            if m and int(m.group(1)) in L['locals']:
                return bool((lv >> L['vbit'][int(m.group(1))]) & 1)
            return True
        if t[0] == 'call':
            b = L['tbit'].get(t[2])
            return b is not None and bool((lt >> b) & 1)
        return False

    def out_facts(self, st, f):
        keep = getattr(self.rule, 'interfacts', False)
        if not keep:
            return frozenset()
        return frozenset((k, v) for k, v in st.env.items()
                         if (k[0] == 'p' and k[1].startswith('this.')) or
                         (k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p' and k[1][1][1].startswith('this.')))

    def trace(self):
        """Lines leading to the current point, outermost function first."""
        out = []
        for f, node, info in self.stack:
            seen, st = info
            lines = []
            ni, key = node.i, st.key()
            C = cfg_of(f)
            guard = 0
            while ni is not None and guard < 5000:
                guard += 1
                n = C.nodes[ni]
                lab = n.line
                if not lines or lines[-1] != lab:
                    lines.append(lab)
                ent = seen.get(ni, {}).get(key)
                if ent is None:
                    break
                ni, key = ent
            lines.reverse()
            out.append({'function': f.q, 'file': f.file, 'lines': lines})
        return out

    # transfer -----------------------------------------------------------------
    def step(self, C, node, st, depth):
        """[(target index, state)]"""
        k = node.kind
        if k in ('entry', 'nop', 'join'):
            return self.flow(node, st)
        if k == 'br':
            if node.x == 'rfor':
                return self.flow(node, st, labels=True)
            v = self.val(node.e, st, C)
            r = self.rule.branch(self, C, node, st, v)
            out = []
            for lab, tgt in node.succ:
                for s in self.assume(v, lab == 'T', st):
                    if r is not None:
                        s = self.rule.after_branch(self, C, node, s, v, lab == 'T')
                        if s is None:
                            continue
                    out.append((tgt, s))
            return out
        if k == 'sw':
            v = self.val(node.e, st, C)
            out = []
            for lab, tgt in node.succ:
                if lab[0] == 'case':
                    if lab[1] is None:
                        out.append((tgt, st))
                        continue
                    for s in self.assume(self.simp(('b', '==', v, ('c', lab[1])), st), True, st):
                        out.append((tgt, s))
                else:
                    ss = [st]
                    for cv in lab[1] or ():
                        if cv is None:
                            continue
                        ss = [t for s in ss for t in self.assume(self.simp(('b', '==', v, ('c', cv)), s), False, s)]
                    out += [(tgt, s) for s in ss]
            return out
        if k == 'setv':
            return self.flow(node, st.set((('e', node.e['i']), ('c', node.x))))
        if k == 'sel':
            return self.flow(node, st.set((('e', node.e['i']), self.val(node.x, st, C))))
        if k == 'ret':
            res = []
            v = self.val(node.e, st, C) if node.e is not None else None
            for s in self.rule.at_return(self, C, node, st, v):
                if v is not None:
                    w = self.retval(v, s)
                    s = s.set((('ret',), w))
                res += self.flow(node, self.drop_temps(s))
            return res
        if k == 'disp':
            return self.dispatch(C, node, st)
        if k == 'catch':
            disp, h = node.x
            s = st
            t = st.env.get(('exc',))
            s = s.set((('x', disp), t or '?'), (('exc',), None))
            if h.get('d'):
                s = s.set((('p', 'v%d' % h['d']), ('nn', 'exc')))
            return [(tgt, x) for x in self.rule.at_catch(self, C, node, s, t or '?') for tgt, x in self.flow(node, x)]
        if k == 'throw':
            ss = self.rule.at_throw(self, C, node, st)
            return [(tgt, s.set((('exc',), self.P.norm(node.x)))) for s in ss for _l, tgt in node.succ]
        if k == 'rethrow':
            t = st.env.get(('x', node.x), '?')
            return [(tgt, s.set((('exc',), t))) for s in self.rule.at_throw(self, C, node, st) for _l, tgt in node.succ]
        if k == 'asg':
            e = node.e
            outs = []
            for s in self.rule.at_assign(self, C, node, st):
                p = path_of(e['x'], C.alias)
                if p and getattr(self.rule, 'nostar', False) and e['x']['k'] == 'un' and e['x']['op'] == '*':
                    p = None        # the object pointed to, not the pointer
                if p:
                    if 'op' in e:
                        x, y = self.val(e['x'], s, C), self.val(e['y'], s, C)
                        if getattr(self.rule, 'count', False) and x[0] == 'c' and y[0] == 'c' and e['op'] in ('+', '-', '+=', '-='):
                            s = self.assign(s, p, ('c', x[1] + y[1] if e['op'][0] == '+' else x[1] - y[1]))
                        else:
                            s = self.havoc(s, p, C, node)
                    else:
                        v = self.val(e['y'], s, C)
                        s = self.assign(s, p, v)
                outs += self.flow(node, s)
            return outs
        if k == 'inc':
            p = path_of(node.e['e'], C.alias)
            outs = []
            for s in self.rule.at_assign(self, C, node, st):
                if p:
                    v = self.val(node.e['e'], s, C)
                    if node.e.get('post'):
                        s = s.set((('e', node.e['i']), v))
                    if v[0] == 'c' and getattr(self.rule, 'count', False):
                        s = self.assign(s, p, ('c', v[1] + (1 if node.e['op'] == '++' else -1)))
                    else:
                        s = self.havoc(s, p, C, node)
                outs += self.flow(node, s)
            return outs
        if k == 'decl':
            v = node.x
            outs = []
            for s in self.rule.at_assign(self, C, node, st):
                if v.get('isref') and node.e is not None:
                    p = path_of(node.e, C.alias)
                    if p:
                        C.alias[v['d']] = p
                        outs += self.flow(node, s)
                        continue
                p = 'v%d' % v['d']
                if node.e is None:
                    s = self.havoc(s, p, C, node)
                else:
                    s = self.assign(s, p, self.val(node.e, s, C))
                outs += self.flow(node, s)
            return outs
        if k == 'minit':
            n = node.x.rsplit('::', 1)[-1]
            return [t for s in self.rule.at_assign(self, C, node, st)
                    for t in self.flow(node, self.assign(s, 'this.' + n, self.val(node.e, s, C)))]
        if k in ('call', 'ctor', 'new', 'delete'):
            return self.call(C, node, st, depth)
        return self.flow(node, st)

    def drop_temps(self, st):
        if any(k[0] == 'e' for k in st.env):
            return State(st.q, {k: v for k, v in st.env.items() if k[0] != 'e'})
        return st

    def retval(self, v, st):
        """Normalise a returned value for the caller."""
        if v[0] == 'c':
            return v
        if v[0] in ('S', 'nn'):
            return ('nn', 'ret')
        if v[0] == 's':
            if v[1][0] == 'G':
                return v
            c = st.env.get(('k', v))
            if c and c[0] is not None and c[0] == c[1]:
                return ('c', c[0])
            if c:
                return ('k', c)
            if v[1][0] == 'p' and v[1][1].startswith('this.'):
                return v
            if v[1][0] == 'G':
                return v
        if v[0] == 'b':
            w = self.simp(v, st)
            if w[0] == 'c':
                return w
        return ('u',)

    def flow(self, node, st, labels=False):
        return [(tgt, st) for lab, tgt in node.succ if lab != 'X']

    def dispatch(self, C, node, st):
        t = st.env.get(('exc',), '?')
        out = []
        for lab, tgt in node.succ:
            if lab == 'unc':
                out.append((tgt, st))
                continue
            h = node.x[lab[1]]
            if h.get('all'):
                out.append((tgt, st))
                return out
            m = self.catches(h['t'], t)
            if m == 'yes':
                out.append((tgt, st))
                return out
            if m == 'maybe':
                if t == '?' or t == 'vmime?':
                    out.append((tgt, st.set((('exc',), h['t'] if h['t'] != 'std::exception' else t))))
                else:
                    out.append((tgt, st))
        return out

    def catches(self, h, t):
        """Does handler type h catch exceptions of (dynamic) type t?"""
        P = self.P
        if t == '?':
            return 'maybe'
        if t == 'vmime?':
            if h in ('vmime::exception', 'std::exception'):
                return 'yes'
            return 'maybe' if P.derives(h, 'vmime::exception') else 'no'
        if h == t:
            return 'yes'
        if h == 'std::exception':
            return 'yes' if t.startswith('std::') or 'std::exception' in P.bases(t) else 'no'
        if P.derives(t, h):
            return 'yes'
        return 'no'

    # calls ----------------------------------------------------------------------
    def throw_edges(self, C, node, st, types):
        out = []
        xs = [tgt for lab, tgt in node.succ if lab == 'X']
        if not xs:
            return out
        tgt = xs[0]
        if C.nodes[tgt] is C.xexit and not getattr(self.rule, 'exc_types', False):
            types = {'?'} if types else types
        for t in types:
            out.append((tgt, st.set((('exc',), t))))
        return out

    def call(self, C, node, st, depth):
        e = node.e
        out = []
        res = self.rule.event(self, C, node, st, depth)
        if res is not None:
            self.stats['events'] += 1
            for r in res:
                q, kind, v = r[:3]
                s = State(q, st.env)
                if len(r) > 3:
                    s = s.set(*r[3])
                if kind == 'n':
                    s = self.after_call(C, node, s, v)
                    if len(r) > 4:
                        s = s.set(*r[4])
                    out += self.flow(node, s)
                elif kind == 'x':
                    out += self.throw_edges(C, node, self.effects(C, node, s), {v or '?'})
                elif kind == 'd':   # default processing from state q
                    out += self.default_call(C, node, s, depth)
            return out
        return self.default_call(C, node, st, depth)

    def default_call(self, C, node, st, depth):
        e = node.e
        out = []
        if node.kind in ('call', 'ctor') and e.get('id'):
            tg = self.P.targets(e, self.recv_class(C, node, st))
            inl = [t for t in tg if self.relevant(t)]
            if inl and not transparent(e):
                base = self.effects(C, node, st)
                rest = [t for t in tg if t not in inl]
                for t in inl:
                    facts = self.bind(C, node, st, t)
                    self.stack[-1][1] = node
                    for kind, exc, rv, q2, of in self.summary(t, st.q, facts, depth + 1):
                        q2 = self.rule.map_back(self, C, node, t, q2)
                        s = State(q2, base.env)
                        s = self.bind_back(C, node, s, t, of)
                        if kind == 'n':
                            s = self.setret(C, node, s, rv)
                            out += self.flow(node, s)
                        else:
                            out += self.throw_edges(C, node, s, {exc or '?'})
                if not rest and (not e.get('virt') or not self.open_call(e)):
                    return out
                if not rest and e.get('virt'):
                    return out
        s = self.effects(C, node, st)
        s1 = self.setret(C, node, s, self.opaque_value(C, node, st))
        out += self.flow(node, s1)
        if node.kind != 'delete' and node.kind != 'new':
            out += self.throw_edges(C, node, s, self.thrown(e))
        return out

    def open_call(self, e):
        return False

    def recv_class(self, C, node, st):
        """Receiver class when known more precisely than the static type."""
        e = node.e
        o = e.get('o')
        if o is not None and o['k'] == 'this' and getattr(self, 'self_class', None):
            sc = self.self_class
            if self.P.derives(sc, C.func.cls or ''):
                return sc
        return None

    def thrown(self, e):
        if self.fx is None:
            return {'?'}
        return self.fx.call_throws(e)

    def opaque_value(self, C, node, st):
        e = node.e
        if node.kind == 'call':
            v = self.getter(C, e, st)
            if v is not None:
                return v
            if e.get('f', '').startswith(('std::make_shared', 'std::make_unique')):
                return ('nn', (C.func.id, e['i']))
            if is_smart(e.get('t')) and e.get('f', '').rsplit('::', 1)[-1] in ('dynamicCast', 'constCast', 'dynamic_pointer_cast', 'const_pointer_cast', 'static_pointer_cast'):
                pass
        return None

    def getter(self, C, e, st):
        """Value of a call to `T f() const { return this->a.b; }`."""
        ts = self.P.targets(e)
        if len(ts) != 1:
            return None
        g = self.fx.getter_path(ts[0]) if self.fx else None
        if g is None:
            return None
        if g[0] == 'c':
            return g
        o = e.get('o')
        base = path_of(o, C.alias) if o is not None else None
        if base is None:
            return None
        p = base + g[1]
        return st.env.get(('p', p), ('s', ('p', p)))

    def setret(self, C, node, st, rv):
        e = node.e
        key = ('e', e['i'])
        sym = ('s', ('call', C.func.id, e['i']))
        if node.kind != 'call' and node.kind != 'ctor':
            return st
        drop = [(('k', sym), None)] if ('k', sym) in st.env else []
        drop += [(k, None) for k in st.env if k[0] == 'r' and (k[1] == sym or k[2] == sym)]
        if rv is None or rv == ('u',):
            return st.set((key, None), *drop)
        if rv[0] == 'k':
            return st.set((key, sym), (('k', sym), rv[1]))
        return st.set((key, rv), *drop)

    def after_call(self, C, node, st, v):
        s = self.effects(C, node, st)
        return self.setret(C, node, s, v)

    def effects(self, C, node, st):
        """Invalidate what the call may write through its arguments."""
        e = node.e
        if node.kind in ('new', 'delete'):
            return st
        s = st
        ra = set(e.get('ra', ()))
        for i, a in enumerate(e['a']):
            if i in ra or (a is not None and a['k'] == 'un' and a['op'] == '&'):
                if a['k'] == 'un' and a['op'] == '&':
                    p = path_of(a['e'], C.alias)
                    if p and i in ra:
                        s = self.havoc(s, p, C, node, i)
                else:
                    p = path_of(a, C.alias)
                    if p and p != 'this':
                        t = a.get('t', '')
                        if t.rstrip().endswith('*'):
                            s = self.havoc_sub(s, p)
                        else:
                            s = self.havoc(s, p, C, node, i)
        if node.kind == 'call' and 'o' in e and not e.get('const') and not transparent(e):
            o = e['o']
            p = path_of(o, C.alias)
            if p:
                ot = e.get('ot', '')
                if p == 'this':
                    s = self.self_effects(C, node, s, e, 'this')
                elif e.get('op') == '=' or e.get('f', '').rsplit('::', 1)[-1] in ('reset', 'swap'):
                    fn = e.get('f', '').rsplit('::', 1)[-1]
                    v = None
                    if e.get('op') == '=' and len(e['a']) == 1:
                        v = self.val(e['a'][0], st, C)
                    elif fn == 'reset' and is_smart(ot):
                        v = ('c', 0) if not e['a'] else self.val(e['a'][0], st, C)
                    s = self.assign(s, p, v) if v is not None else self.havoc(s, p, C, node, 'o')
                elif is_ptrish(ot):
                    if is_smart(ot) and o['k'] != 'call':
                        s = self.havoc(s, p, C, node, 'o')
                    else:
                        s = self.self_effects(C, node, s, e, p)
                else:
                    tg = self.P.targets(e)
                    if tg:
                        s = self.self_effects(C, node, s, e, p)
                    else:
                        s = self.havoc(s, p, C, node, 'o')
        elif node.kind == 'call' and 'o' not in e and self.fx is not None:
            pass
        return s

    def self_effects(self, C, node, st, e, p):
        tg = self.P.targets(e)
        mods = set()
        if self.fx is not None:
            for t in tg:
                mods |= self.fx.mods(t)
        env = dict(st.env)
        ch = False
        for k in list(env):
            pp = None
            if k[0] == 'p':
                pp = k[1]
            elif k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p':
                pp = k[1][1][1]
            if pp and pp.startswith(p + '.'):
                names = re.split(r'[.\[]', pp[len(p) + 1:])
                if self.fx is None or any(n in mods for n in names):
                    sym = None
                    if k[0] == 'p':
                        env[k] = ('s', ('h', C.func.id, node.i, 'm', pp))
                        env.pop(('k', env[k]), None)
                    else:
                        del env[k]
                        if ('p', pp) not in st.env:
                            env[('p', pp)] = ('s', ('h', C.func.id, node.i, 'm', pp))
                            env.pop(('k', env[('p', pp)]), None)
                    ch = True
        return State(st.q, env) if ch else st

    def bind(self, C, node, st, t):
        """Facts passed to callee t: constant arguments, and this-> facts on self calls."""
        e = node.e
        facts = {}
        for a, p in zip(e['a'], t.params):
            v = self.val(a, st, C)
            key = ('p', 'v%d' % p['d'])
            if v[0] == 'c':
                facts[key] = v
            elif v[0] in ('nn', 'S'):
                facts[key] = ('nn', 'arg')
            elif v[0] == 's':
                c = st.env.get(('k', v))
                if c:
                    if c[0] is not None and c[0] == c[1]:
                        facts[key] = ('c', c[0])
                    elif getattr(self.rule, 'argcons', True):
                        facts[('k', ('s', ('p', 'v%d' % p['d'])))] = c
        if getattr(self.rule, 'interfacts', False):
            o = e.get('o')
            if o is not None and path_of(o, C.alias) == 'this':
                for k, v in st.env.items():
                    if k[0] == 'p' and k[1].startswith('this.') and v[0] in ('c', 'nn'):
                        facts[k] = ('nn', 'f') if v[0] == 'nn' else v
                    elif k[0] == 'p' and k[1].startswith('this.') and v[0] == 's':
                        c = st.env.get(('k', v))
                        if c:
                            facts[('k', ('s', ('p', k[1])))] = c
                    elif k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p' and k[1][1][1].startswith('this.'):
                        if ('p', k[1][1][1]) not in st.env:
                            facts[k] = v
        facts.update(self.rule.bind(self, C, node, st, t) or {})
        return frozenset(facts.items())

    def bind_back(self, C, node, st, t, facts):
        if not facts:
            return st
        o = node.e.get('o')
        if o is None or path_of(o, C.alias) != 'this':
            back = getattr(self.rule, 'bind_back', None)
            return back(self, C, node, st, t, facts) if back else st
        env = dict(st.env)
        for k, v in facts:
            if k[0] == 'p':
                if v[0] in ('c', 'nn') or (v[0] == 's' and v[1][0] == 'G'):
                    env[k] = v
            else:
                env[k] = v
        return State(st.q, env)


class Rule:
    """Defaults for rules."""
    interfacts = False

    def direct(self, eng, f):
        return False

    def may_enter(self, eng, f):
        return True

    def event(self, eng, C, node, st, depth):
        return None

    def branch(self, eng, C, node, st, v):
        return None

    def after_branch(self, eng, C, node, st, v, truth):
        return st

    def at_return(self, eng, C, node, st, v):
        return [st]

    def at_throw(self, eng, C, node, st):
        return [st]

    def at_catch(self, eng, C, node, st, t):
        return [st]

    def at_assign(self, eng, C, node, st):
        return [st]

    def bind(self, eng, C, node, st, t):
        return None

    def map_back(self, eng, C, node, t, q):
        return q
