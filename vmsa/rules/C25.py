"""Optional parts of an IMAP reply are never dereferenced when they are absent."""
from ..engine import Engine, Rule, State, path_of, is_smart, c_intersect
from ..program import walk

NS = 'vmime::net::imap::IMAPParser::'
BASE = NS + 'component'


def G(name):
    return ('s', ('G', name))


class Shape(Rule):
    """parseImpl() of one grammar component: which members are set on success."""
    interfacts = True
    max_states = 5000
    max_outs = 10 ** 6
    keep = ()

    def __init__(self, own):
        self.own = own

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind == 'call' and e.get('f') in (NS + 'get', NS + 'getWithArgs'):
            return [(st.q, 'n', ('nn', 'get')), (st.q, 'n', ('c', 0))]
        return None


def shapes(P, ctx):
    """class -> list of {member: 0 | 'nn' | ('c', n)} describing every successful parse."""
    out = {}
    n = 0
    for cls in sorted(P.subclasses(BASE)):
        fl = {f['n']: f for f in P.all_fields(cls)}
        ptr = [m for m in fl if is_smart(fl[m]['t'])]
        fs = [g for c in [cls] + P.bases(cls) for g in P.byq.get(c + '::parseImpl', []) if g.d.get('body')]
        if not fs or not ptr:
            continue
        n += 1
        rule = Shape(cls)
        eng = Engine(P, rule, ctx.fx)
        eng.self_class = cls
        env = {('p', 'this.' + m): ('c', 0) for m in ptr}
        ds = set()
        for kind, exc, rv, q, facts in eng.run(fs[0], 'p', env):
            if kind != 'n' or rv == ('c', 0):
                continue
            ks = {k[1]: v for k, v in facts if k[0] == 'k'}
            d = []
            for k, v in facts:
                if k[0] != 'p' or not k[1].startswith('this.') or '.' in k[1][5:]:
                    continue
                m = k[1][5:]
                if m not in fl:
                    continue
                if m in ptr:
                    if v == ('c', 0):
                        d.append((m, 0))
                    elif v[0] == 'nn':
                        d.append((m, 'nn'))
                    elif v[0] == 's' and v in ks and 0 in ks[v][2]:
                        d.append((m, 'nn'))
                elif v[0] == 'c' and fl[m].get('scalar'):
                    d.append((m, v))
            ds.add(frozenset(d))
        ctx.absorb(eng)
        out[cls] = [dict(d) for d in ds]
        ctx.ob('shape of %s: %d alternatives' % (cls[len(NS):], len(ds)), ctx.at(fs[0]), bool(ds))
    ctx.need('grammar components with optional parts', n, 25)
    return out


class Use(Rule):
    max_states = 160
    interfacts = True

    def __init__(self, P, shape, inner):
        self.P = P
        self.shape = shape
        self.inner = inner
        self.cls = {}
        self.bad = {}
        self.sites = set()
        self.union = {}

    def alts(self, cls):
        """Alternatives of a static type: those of the class and of its subclasses."""
        if cls not in self.union:
            l = []
            for c in [cls] + sorted(self.P.subclasses(cls)):
                l += self.shape.get(c, [])
            self.union[cls] = l
        return self.union[cls]

    def direct(self, eng, f):
        return f in self.inner

    def may_enter(self, eng, f):
        return f.file.startswith('vmime/net/imap/') and not f.q.startswith(BASE)

    def memval(self, eng, C, e, st):
        q = e['q'].rsplit('::', 1)
        if q[0].startswith(NS):
            p = path_of(e, C.alias)
            if p:
                self.cls[p] = q[0]
        return None

    def nullable(self, eng, v, st):
        """(class, member, maybe null?) when v is the value of an optional part."""
        if v[0] != 's':
            return None
        if v[1][0] == 'G' and v[1][1][0] == 'opt':
            return v[1][1][1], v[1][1][2], eng.is_null(v, st) is not False
        if v[1][0] != 'p':
            return None
        p = v[1][1]
        cls = self.cls.get(p)
        if cls is None or '.' not in p:
            return None
        base, m = p.rsplit('.', 1)
        alts = self.alts(cls)
        if not alts or not any(m in a for a in alts):
            return None
        if eng.is_null(v, st) is False:
            return cls, m, False
        for a in alts:
            if a.get(m) == 'nn':
                continue
            ok = True
            for x, w in a.items():
                xp = base + '.' + x
                xv = st.env.get(('p', xp), ('s', ('p', xp)))
                c = eng.cons_of(xv, st)
                want = ('!=', 0) if w == 'nn' else ('==', 0 if w == 0 else w[1])
                if c_intersect(c, *want) is None:
                    ok = False
                    break
            if ok:
                return cls, m, True
        return cls, m, False

    def deref(self, eng, C, node, st, v):
        r = self.nullable(eng, v, st)
        if r is None:
            return st
        self.sites.add((C.func, node.i, r[1]))
        if r[2]:
            k = (C.func, r[0], r[1])
            if k not in self.bad:
                self.bad[k] = (node.line, eng.trace())
        c = eng.assume(v, True, st)
        return c[0] if c else None

    def pre(self, eng, C, node, st):
        e = node.e
        if e is None or node.kind in ('setv', 'sel'):
            return st
        if node.kind == 'call':
            o = e.get('o')
            if o is not None and e.get('op') in ('->', '*') and is_smart(e.get('ot')):
                st = self.deref(eng, C, node, st, eng.val(o, st, C))
                if st is None:
                    return None
            elif o is not None and e.get('ot', '').rstrip().endswith('*'):
                st = self.deref(eng, C, node, st, eng.val(o, st, C))
                if st is None:
                    return None
        todo = [e]
        while todo and st is not None:
            x = todo.pop()
            if not isinstance(x, dict):
                continue
            k = x.get('k')
            if k in ('cond', 'lambda', 'sizeof') or k == 'bin' and x['op'] in ('&&', '||'):
                continue
            if k == 'mem' and x['b'].get('t', '').rstrip().endswith('*') and x['b']['k'] != 'this':
                st = self.deref(eng, C, node, st, eng.val(x['b'], st, C))
            elif k == 'un' and x['op'] == '*':
                st = self.deref(eng, C, node, st, eng.val(x['e'], st, C))
            for y in x.values():
                if isinstance(y, dict):
                    todo.append(y)
                elif isinstance(y, list):
                    todo += y
        return st

    def event(self, eng, C, node, st, depth):
        return None

    def bind(self, eng, C, node, st, t):
        out = {}
        e = node.e
        pairs = []
        for a, p in zip(e['a'], t.params):
            v = eng.val(a, st, C)
            r = self.nullable(eng, v, st)
            if r is not None:
                out[('p', 'v%d' % p['d'])] = G(('opt', r[0], r[1])) if r[2] else ('nn', 'arg')
            A = path_of(a, C.alias)
            if A and v[0] == 's' and v[1][0] == 'p' and v[1][1] != A:
                pairs.append((v[1][1], 'v%d' % p['d']))
            if A:
                pairs.append((A, 'v%d' % p['d']))
        R = path_of(e['o'], C.alias) if e.get('o') is not None else None
        if R and R != 'this':
            pairs.append((R, 'this'))
        for A, B in pairs:
            for k, v in st.env.items():
                if k[0] == 'p' and k[1].startswith(A + '.') and v[0] in ('c', 'nn'):
                    out[('p', B + k[1][len(A):])] = ('nn', 'f') if v[0] == 'nn' else v
                elif k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p' and k[1][1][1].startswith(A + '.') and \
                        ('p', k[1][1][1]) not in st.env:
                    out[('k', ('s', ('p', B + k[1][1][1][len(A):])))] = v
        return out

    def bind_back(self, eng, C, node, st, t, facts):
        o = node.e.get('o')
        R = path_of(o, C.alias) if o is not None else None
        if not R or not t.q.startswith(NS):
            return st
        env = dict(st.env)
        for k, v in facts:
            if k[0] == 'p' and v[0] in ('c', 'nn'):
                env[('p', R + k[1][4:])] = v
            elif k[0] == 'k':
                env[('k', ('s', ('p', R + k[1][1][1][4:])))] = v
        return State(st.q, env)


def check(P, ctx):
    ctx.rule('For each component of the IMAP grammar the analysis of parseImpl() yields the alternatives a successful parse '
             'can leave (which optional parts are present, with the tag and flag values). Every dereference of an optional part, in the '
             'parser and in all its users, must be covered: after the tests made on the path, no remaining alternative '
             'lacks the part.')
    shape = shapes(P, ctx)
    comps = P.subclasses(BASE) | {BASE}
    files = ('vmime/net/imap/',)
    inner = set()
    for f in P.fn:
        if not f.file.startswith(files) or not f.d.get('body'):
            continue
        for n in f.nodes('mem'):
            q = n['q'].rsplit('::', 1)[0]
            if q in shape or q in comps:
                inner.add(f)
                break
    P_ = P

    def component_typed(f):
        return any(any(c == P.norm(p.get('t', '')).replace('const ', '').strip() for c in comps) or
                   NS in p.get('t', '') for p in f.params)
    rule = Use(P, shape, inner)
    eng = Engine(P, rule, ctx.fx)
    eng.relevant(None)
    roots = [f for f in eng.rel if f is not None and eng.rel[f]]
    called = set()
    for f in roots:
        for c in f.calls():
            called |= set(P.targets(c))
    todo = [f for f in roots if f.cls not in comps and not (component_typed(f) and f in called)]
    todo += [f for f in roots if f.cls in comps and f.q.endswith('::parseImpl')]
    done = 0
    for f in sorted(todo, key=lambda f: (f.file, f.line)):
        env = {}
        if f.cls in comps:
            env = {('p', 'this.' + x['n']): ('c', 0) for x in P.all_fields(f.cls) if is_smart(x['t'])}
        eng.run(f, 's', env)
        done += 1
    ctx.absorb(eng)
    badf = {k[0] for k in rule.bad}
    per = {}
    for f, i, m in rule.sites:
        per.setdefault(f, set()).add((i, m))
    for f in sorted(per, key=lambda f: (f.file, f.line)):
        ctx.ob('%d uses of optional reply parts covered' % len(per[f]), ctx.at(f), f not in badf)
    for (f, cls, m), (line, tr) in sorted(rule.bad.items(), key=lambda x: (x[0][0].file, x[1][0])):
        ctx.violation('absent:%s:%s' % (f.q, m), '%s dereferences %s of %s, which a server may leave out'
                      % (f.q, m, cls[len(NS):]), f.file, line, tr, f.q)
    ctx.need('functions reading IMAP replies', done, 30)
    ctx.need('uses of optional reply parts', len(rule.sites), 150)
