"""getChildComponents() lists every component an object owns, once; tree walks visit every child."""
from ..program import walk
from ..engine import is_smart, transparent

COMP = 'vmime::component'
# By-value members whose words are not components of the tree.
VALUES = {'vmime::mailbox::m_name': 'the words of a display name have no position of their own',
          'vmime::mailboxGroup::m_name': 'the words of a display name have no position of their own'}
ADD = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'operator+=')
LISTT = 'std::shared_ptr<vmime::component>'


def mname(e):
    return e.get('f', '').rsplit('::', 1)[-1]


def strip(e):
    while e is not None:
        k = e['k']
        if k in ('cast', 'defarg'):
            e = e['e']
        elif k == 'ctor' and len(e['a']) >= 1 and (e.get('cp') or is_smart(e.get('t'))):
            e = e['a'][0]
        elif k == 'call' and transparent(e) and mname(e) == 'get':
            e = e['o']
        elif k == 'call' and mname(e) in ('dynamicCast', 'dynamic_pointer_cast', 'static_pointer_cast', 'move', 'forward') and e['a']:
            e = e['a'][0]
        else:
            return e
    return e


class Tree:
    def __init__(self, P, ctx, visit=None):
        self.P, self.ctx, self.visit = P, ctx, visit
        self.memo = {}
        self.twice = []

    def owned(self, cls):
        """Qualified names of the fields through which cls owns components."""
        out = {}
        for f in self.P.all_fields(cls):
            t = f['t']
            i = t.find('shared_ptr<')
            if i < 0:
                if t in self.P.records and self.P.derives(t, COMP) and f['q'] not in VALUES and self.owned(t):
                    out[f['q']] = 'value'
                continue
            inner = t[i + 11:].split('>')[0].replace('const ', '').strip()
            if inner == COMP or (inner in self.P.records and self.P.derives(inner, COMP)):
                out[f['q']] = 'one' if i <= 5 + 6 and t.startswith(('std::shared_ptr', 'const std::shared_ptr')) else 'many'
        return out

    def result(self, f, cls):
        """Owned fields certainly listed by the value f returns."""
        k = ('r', f, cls)
        if k not in self.memo:
            self.memo[k] = frozenset()
            w = Walk(self, f, cls)
            self.memo[k] = w.run()
        return self.memo[k]


class Walk:
    def __init__(self, T, f, cls, env=None, depth=0):
        self.T, self.f, self.cls, self.depth = T, f, cls, depth
        self.env = dict(env or {})      # local -> ('F', q) | ('E', q) | ('B', q) | ('Z', q) | ('L', name)
        self.rets = []
        self.brk = []

    def run(self):
        end = self.st(self.f.d['body'], frozenset())
        if end is not None:
            self.rets.append((end, None))
        out = None
        for c, r in self.rets:
            s = frozenset(x[1] for x in c if x[0] == r) if r else frozenset()
            out = s if out is None else out & s
        return out or frozenset()

    # what an expression denotes ------------------------------------------
    def den(self, e):
        e = strip(e)
        if e is None:
            return None
        k = e['k']
        if k == 'mem':
            if e['b'] is not None and strip(e['b'])['k'] == 'this':
                return ('F', e['q'])
            return None
        if k == 'ref':
            if e.get('dk') in ('local', 'param', 'slocal'):
                return self.env.get(e['d'], ('L', 'v%d' % e['d']))
            return None
        if k == 'un' and e['op'] in ('*', '&'):
            d = self.den(e['e'])
            return ('E', d[1]) if d and d[0] == 'B' else d
        if k == 'idx':
            d = self.den(e['b'])
            return ('E', d[1]) if d and d[0] == 'F' else None
        if k == 'call':
            n = mname(e)
            if e.get('o') is not None:
                d = self.den(e['o'])
                if d and d[0] == 'F' and n in ('begin', 'cbegin', 'rbegin', 'crbegin'):
                    return ('B', d[1])
                if d and d[0] == 'F' and n in ('end', 'cend', 'rend', 'crend', 'size'):
                    return ('Z', d[1])
                if d and d[0] == 'F' and (e.get('op') == '[]' or n == 'at'):
                    return ('E', d[1])
                if d and d[0] == 'B' and e.get('op') in ('*', '->'):
                    return ('E', d[1])
                if transparent(e):
                    return d
                if n == 'getChildComponents' and self.T.visit and strip(e['o'])['k'] == 'this':
                    return ('F', '#children')
                if d is None and strip(e['o'])['k'] == 'this' and not e['a']:
                    # accessor of a field
                    for t in self.T.P.targets(e, self.cls):
                        b = t.d.get('body')
                        if b and len(b.get('b', [])) == 1 and b['b'][0]['k'] == 'ret' and b['b'][0].get('e') is not None:
                            x = strip(b['b'][0]['e'])
                            if x['k'] == 'mem' and strip(x['b'])['k'] == 'this':
                                return ('F', x['q'])
            elif n in ('begin', 'cbegin', 'end', 'cend', 'size') and len(e['a']) == 1:
                d = self.den(e['a'][0])
                if d and d[0] == 'F':
                    return ('B' if 'begin' in n else 'Z', d[1])
            elif n == 'back_inserter' and e['a']:
                return self.den(e['a'][0])
        return None

    def put(self, cov, dest, item, line):
        if (dest, item) in cov:
            self.T.twice.append((self.f, item, line))
        return cov | {(dest, item)}

    def call(self, e, cov):
        n = mname(e)
        o = e.get('o')
        od = self.den(o) if o is not None else None
        args = [a for a in e['a']]
        ds = [self.den(a) if a is not None else None for a in args]
        if self.T.visit:
            if od and od[0] in ('E', 'F') and n == self.T.visit:
                it = od[1] if od[0] == 'F' else 'elem:' + od[1]
                return self.put(cov, 'visit', it, e['l'])
        if e['k'] == 'call' and od and od[0] == 'L':
            if n in ADD:
                for d in ds[:1]:
                    if d and d[0] == 'F':
                        cov = self.put(cov, od[1], d[1], e['l'])
                    elif d and d[0] == 'E':
                        cov = self.put(cov, od[1], 'elem:' + d[1], e['l'])
                return cov
            if n in ('insert', 'assign', 'operator='):
                return self.ranges(ds, args, cov, od[1], e)
            if n == 'clear':
                return frozenset(x for x in cov if x[0] != od[1])
        if e['k'] == 'call':
            ls = [d for d in ds if d and d[0] == 'L']
            if ls:
                if n in ('copy_vector', 'copy', 'transform'):
                    for d in ds:
                        if d and d[0] == 'F':
                            return self.put(cov, ls[-1][1], d[1], e['l'])
                    return self.ranges(ds, args, cov, ls[-1][1], e)
                if self.depth < 6 and (o is None or strip(o)['k'] == 'this'):
                    ts = [t for t in self.T.P.targets(e, self.cls) if t.d.get('body')]
                    if ts:
                        out = None
                        for t in ts:
                            env = {p['d']: d for p, d in zip(t.params, ds) if d and 'd' in p}
                            w = Walk(self.T, t, self.cls, env, self.depth + 1)
                            end = w.st(t.d['body'], cov)
                            fin = None
                            for c in ([end] if end is not None else []) + [c for c, _r in w.rets]:
                                fin = c if fin is None else fin & c
                            out = fin if out is None else out & (fin or cov)
                        return out or cov
        return cov

    def ranges(self, ds, args, cov, dest, e):
        b = {d[1] for d in ds if d and d[0] == 'B'}
        z = {d[1] for d in ds if d and d[0] == 'Z'}
        for q in b & z:
            cov = self.put(cov, dest, q, e['l'])
        for a, d in zip(args, ds):
            if d and d[0] == 'F':
                cov = self.put(cov, dest, d[1], e['l'])
            elif a is not None and strip(a)['k'] in ('ilist', 'init'):
                cov = self.value(a, cov, dest)
        return cov

    def value(self, e, cov, dest):
        """dest := e (a list)."""
        x = strip(e)
        if x is None:
            return cov
        if x['k'] == 'call' and mname(x) != 'move':
            ts = [t for t in self.T.P.targets(x, self.cls) if t.d.get('body')]
            o = strip(x['o']) if x.get('o') is not None else None
            if o is not None and o['k'] == 'this' and ts and self.depth < 6:
                if x.get('rc') and not x.get('virt'):
                    pass
                got = None
                for t in ts:
                    w = Walk(self.T, t, self.cls, {p['d']: self.den(a) for p, a in zip(t.params, x['a']) if a is not None and self.den(a)},
                             self.depth + 1)
                    r = w.run()
                    got = r if got is None else got & r
                for q in got or ():
                    cov = self.put(cov, dest, q, x['l'])
            elif o is not None and mname(x) == 'getChildComponents':
                d = self.den(o)
                if d and d[0] == 'F':
                    cov = self.put(cov, dest, d[1], x['l'])
            return cov
        if x['k'] == 'ref':
            d = self.den(x)
            if d and d[0] == 'L':
                return cov | {(dest, i) for l, i in cov if l == d[1]}
            return cov
        # constructors: a range or a list of elements
        ds = [self.den(a) if a is not None else None for a in x.get('a', [])]
        b = {d[1] for d in ds if d and d[0] == 'B'}
        z = {d[1] for d in ds if d and d[0] == 'Z'}
        if b or z:
            for q in b & z:
                cov = self.put(cov, dest, q, x['l'])
            return cov
        todo = [x]
        while todo:
            y = todo.pop(0)
            if not isinstance(y, dict):
                continue
            d = self.den(y)
            if d and d[0] == 'F':
                cov = self.put(cov, dest, d[1], x['l'])
                continue
            for v in y.values():
                if isinstance(v, dict):
                    todo.append(v)
                elif isinstance(v, list):
                    todo += v
        return cov

    def expr(self, e, cov):
        if e is None:
            return cov
        k = e.get('k')
        if k == 'lambda':
            return cov
        if k == 'bin' and e['op'] in ('&&', '||'):
            return self.expr(e['x'], cov)
        if k == 'cond':
            a = self.expr(e['c'], cov)
            return self.expr(e['x'], a) & self.expr(e['y'], a)
        for v in e.values():
            if isinstance(v, dict):
                cov = self.expr(v, cov)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        cov = self.expr(x, cov)
        if k == 'call':
            cov = self.call(e, cov)
        elif k == 'asg':
            d = self.den(e['x'])
            if d and d[0] == 'L':
                cov = frozenset(x for x in cov if x[0] != d[1])
                cov = self.value(e['y'], cov, d[1])
        return cov

    # conditions -----------------------------------------------------------
    def absent(self, c):
        """(fields certainly absent when c is true, ... when c is false)"""
        c = strip(c)
        k = c['k']
        if k == 'un' and c['op'] == '!':
            a, b = self.absent(c['e'])
            return b, a
        if k == 'bin' and c['op'] in ('&&', '||'):
            a, b = self.absent(c['x']), self.absent(c['y'])
            return (a[0] | b[0], a[1] & b[1]) if c['op'] == '&&' else (a[0] & b[0], a[1] | b[1])
        ops = c.get('op')
        if ops in ('==', '!='):
            xs = [c['x'], c['y']] if k == 'bin' else ([c['o']] if c.get('o') is not None else []) + c['a']
            if len(xs) == 2:
                for x, y in (xs, xs[::-1]):
                    d = self.den(x)
                    y = strip(y)
                    if d and d[0] in ('F', 'Z', 'E') and y is not None and \
                            (y['k'] in ('null', 'zero') or y.get('cv') == 0 or y.get('q') == 'vmime::null' or
                             'nullPtrType' in y.get('f', '') or 'nullPtrType' in str(y.get('t'))):
                        s = {d[1] if d[0] != 'E' else 'elem:' + d[1]}
                        return (s, set()) if ops == '==' else (set(), s)
        if k == 'call' and mname(c) == 'empty' and c.get('o') is not None:
            d = self.den(c['o'])
            if d and d[0] == 'F':
                return {d[1]}, set()
        if k == 'call' and mname(c).startswith('operator bool') and c.get('o') is not None:
            d = self.den(c['o'])
            if d and d[0] in ('F', 'E'):
                return set(), {d[1] if d[0] == 'F' else 'elem:' + d[1]}
        d = self.den(c)
        if d and d[0] in ('F', 'E', 'Z'):
            return set(), {d[1] if d[0] != 'E' else 'elem:' + d[1]}
        return set(), set()

    def dests(self, cov):
        return {x[0] for x in cov} | {'v%d' % v['d'] for n in self.f.nodes('decl') for v in n['v'] if 'd' in v} | \
            {d[1] for d in self.env.values() if d[0] == 'L'} | {'visit', 'ret'}

    def st(self, s, cov):
        if s is None:
            return cov
        k = s.get('k')
        if k == 'block':
            for x in s['b']:
                cov = self.st(x, cov)
                if cov is None:
                    return None
            return cov
        if k == 'decl':
            for v in s['v']:
                if 'd' not in v:
                    continue
                ini = v.get('init')
                if ini is None:
                    continue
                d = self.den(ini)
                if d and d[0] != 'L' and not (d[0] == 'F' and LISTT in v['t'] and not v.get('isref') and not d[1] == '#children'):
                    self.env[v['d']] = d
                    cov = self.expr(ini, cov)
                    continue
                if LISTT in v['t'] or (d and d[0] == 'L'):
                    if v.get('isref') and d and d[0] == 'L':
                        self.env[v['d']] = d
                    else:
                        cov = self.value(ini, cov, 'v%d' % v['d'])
                else:
                    cov = self.expr(ini, cov)
            return cov
        if k == 'expr':
            if s['e']['k'] == 'throw':
                return None
            return self.expr(s['e'], cov)
        if k == 'ret':
            e = s.get('e')
            if e is not None:
                d = self.den(e)
                if d and d[0] == 'L':
                    self.rets.append((cov, d[1]))
                else:
                    cov = self.value(e, self.expr(e, cov), 'ret')
                    self.rets.append((cov, 'ret'))
            else:
                self.rets.append((cov, None))
            return None
        if k == 'if':
            cov = self.st(s.get('in0'), cov)
            cov = self.expr(s['c'], cov)
            t, f = self.absent(s['c'])
            ds = self.dests(cov)
            a = self.st(s.get('x'), cov | {(d, q) for d in ds for q in t})
            c2 = cov | {(d, q) for d in ds for q in f}
            b = self.st(s.get('y'), c2) if s.get('y') is not None else c2
            return b if a is None else a if b is None else a & b
        if k in ('for', 'while', 'rfor', 'do'):
            return self.loop(s, k, cov)
        if k in ('break', 'continue'):
            self.brk.append((k, cov))
            return None
        if k in ('case', 'default', 'label'):
            return self.st(s.get('s'), cov)
        if k == 'try':
            b = self.st(s['b'], cov)
            for h in s['h']:
                hb = self.st(h['b'], cov)
                b = hb if b is None else b if hb is None else b & hb
            return b
        return cov

    def loop(self, s, k, cov):
        if k == 'for':
            cov = self.st(s.get('in0'), cov)
        full = None
        if k == 'rfor':
            d = self.den(s['r'])
            if d and d[0] == 'F':
                full = d[1]
                self.env[s['var']['d']] = ('E', d[1])
            elif self.T.visit and self.T.visit != '' and strip(s['r'])['k'] == 'call' and mname(strip(s['r'])) == 'getChildComponents':
                full = '#children'
                self.env[s['var']['d']] = ('E', full)
        elif s.get('c') is not None:
            # the bound of the loop names the end or the size of the field
            for n in walk(s['c']):
                if n.get('k') in ('call', 'ref', 'cast'):
                    d = self.den(n)
                    if d and d[0] == 'Z':
                        full = d[1]
            if full is not None and not self.starts(s, full):
                full = None
            cov = self.expr(s['c'], cov)
        save = self.brk
        self.brk = []
        inner = frozenset(x for x in cov if not x[1].startswith('elem:'))
        end = self.st(s['b'], inner)
        ends = [end] if end is not None else []
        broke = [c for kk, c in self.brk if kk == 'break']
        ends += [c for kk, c in self.brk if kk == 'continue']
        self.brk = save
        if full is not None and not broke:
            m = None
            for c in ends:
                m = c if m is None else m & c
            if m is not None:
                for d, i in m:
                    if i == 'elem:' + full:
                        cov = self.put(cov, d, full, s['l'])
        return cov

    def starts(self, s, full):
        """The loop starts at the first element and advances by one."""
        ok = False
        for n in walk(s.get('in0')) if s.get('in0') else self.f.nodes('decl'):
            if n.get('k') == 'decl':
                for v in n['v']:
                    ini = v.get('init')
                    if ini is None:
                        continue
                    d = self.den(ini)
                    if d == ('B', full) or strip(ini).get('cv') == 0:
                        ok = True
        inc = s.get('inc')
        if inc is not None:
            inc = strip(inc)
            return ok and inc.get('op') in ('++',)
        return ok


def check(P, ctx):
    ctx.rule('Every class of the component tree: a must-analysis of getChildComponents() (branches, loops, helpers and '
             'inherited versions included) shows that each member through which the object owns components (shared pointers '
             'and containers of them) is in the returned list on every path on which it is not null, exactly once. Every walk of the tree '
             '(offsetParsedBounds, default getGeneratedSize) visits each child. Every concrete class overrides one of the two '
             'parseImpl() forms, which are implemented by each other by default, and getChildComponents().')
    ctx.assumptions += ['%s contributes no children: %s' % x for x in sorted(VALUES.items())]
    T = Tree(P, ctx)
    n = own = 0
    classes = [c for c in sorted(P.subclasses(COMP)) if c.startswith('vmime::') and not P.rec(c).get('abstract')]
    for cls in classes:
        f = None
        for c in [cls] + P.bases(cls):
            l = [g for g in P.byq.get(c + '::getChildComponents', []) if g.d.get('body')]
            if l:
                f = l[0]
                break
        if f is None:
            continue
        n += 1
        T.twice = []
        want = T.owned(cls)
        got = T.result(f, cls)
        own += len(want)
        ctx.funcs.add(f.sig())
        miss = sorted(set(want) - set(got))
        ctx.ob('%s lists its %d owned member(s)' % (cls, len(want)), ctx.at(f), not miss and not T.twice)
        for q in miss:
            ctx.violation('child:%s:%s' % (cls, q), 'getChildComponents() of %s can return a list without the components in %s'
                          % (cls, q.rsplit('::', 1)[-1]), f.file, f.line, None, f.q)
        for g, q, line in T.twice:
            ctx.violation('twice:%s:%s' % (cls, q), 'getChildComponents() of %s lists the components in %s twice'
                          % (cls, q.rsplit('::', 1)[-1]), g.file, line, None, g.q)
        # one parseImpl of the two
        over = [g for c in [cls] + P.bases(cls) if c != COMP for g in P.byq.get(c + '::parseImpl', [])]
        ctx.ob('%s implements parseImpl()' % cls, ctx.at(f), bool(over))
        if not over:
            ctx.violation('parse:%s' % cls, 'parsing a %s never ends: neither form of parseImpl() is overridden' % cls,
                          f.file, f.line, None, f.q)
    for q, name in ((COMP + '::offsetParsedBounds', 'offsetParsedBounds'), (COMP + '::getGeneratedSize', 'getGeneratedSize')):
        for f in P.byq.get(q, []):
            if not f.d.get('body'):
                continue
            V = Tree(P, ctx, visit=name)
            w = Walk(V, f, COMP)
            end = w.st(f.d['body'], frozenset())
            ends = ([end] if end is not None else []) + [c for c, _r in w.rets]
            ok = bool(ends) and all(('visit', '#children') in c for c in ends) and not V.twice
            ctx.ob('%s visits every child' % q, ctx.at(f), ok)
            ctx.funcs.add(f.sig())
            if not ok:
                ctx.violation('walk:%s' % q, '%s does not visit each child exactly once on every path' % name, f.file, f.line, None, f.q)
    ctx.need('concrete component classes', n, 18)
    ctx.need('owned members', own, 12)
