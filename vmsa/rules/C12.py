"""Parsers and generators report where they stopped, and tolerate callers that do not ask."""
from ..engine import Engine, Rule, State, path_of
from ..mustpass import G, NONNULL, nonnull

COMP = 'vmime::component'
OUT = 'unsigned long *'
# The result of these calls is optional by contract (they return null when there is nothing to parse).
TRY = ()


def outs(f):
    return [p for p in f.params if p['t'].strip() == OUT and 'd' in p]


class Pos(Rule):
    """State: frozenset of 'pos' (written) and 'bounds' (set)."""
    interfacts = True

    def __init__(self, family, target):
        self.family = family
        self.target = target
        self.bad = []

    def direct(self, eng, f):
        return f not in self.family and f.q != COMP + '::setParsedBounds' and f.file.startswith('vmime/') and '/net/' not in f.file and \
            (bool(outs(f)) and f.cls is not None and (f.cls in eng.P.records and eng.P.derives(f.cls, COMP)) or any(c.get('f') == COMP + '::setParsedBounds' for c in f.calls()))

    def may_enter(self, eng, f):
        return f not in self.family and f.file.startswith('vmime/') and f.q != COMP + '::setParsedBounds'

    def is_out(self, eng, C, e, st):
        v = eng.val(e, st, C)
        return v == G('out') or v == ('c', 0) and self.target == 'null' and self.names(C, e)

    def names(self, C, e):
        while e['k'] == 'cast':
            e = e['e']
        return e['k'] == 'ref' and e.get('dk') == 'param' and any(p['d'] == e['d'] for p in outs(C.func))

    def pre(self, eng, C, node, st):
        if self.target != 'null' or node.e is None or node.kind in ('setv', 'sel'):
            return st
        todo = [node.e]
        while todo:
            x = todo.pop()
            if not isinstance(x, dict):
                continue
            k = x.get('k')
            if k in ('cond', 'lambda', 'sizeof') or k == 'bin' and x['op'] in ('&&', '||'):
                continue
            if k == 'un' and x['op'] == '*' and self.names(C, x['e']) and eng.val(x['e'], st, C) == ('c', 0):
                self.bad.append((C.func, node.line, eng.trace()))
                return None
            for y in x.values():
                if isinstance(y, dict):
                    todo.append(y)
                elif isinstance(y, list):
                    todo += y
        return st

    def event(self, eng, C, node, st, depth):
        if self.target == 'null' or node.kind != 'call':
            return None
        e = node.e
        add = set()
        if e.get('f') == COMP + '::setParsedBounds' and path_of(e.get('o'), C.alias) == 'this':
            add.add('bounds')
        ts = eng.P.targets(e)
        if ts and all(t in self.family for t in ts):
            for a in e['a']:
                if a is not None and eng.val(a, st, C) == G('out'):
                    add.add('pos')
            if all(self.sets(t) for t in ts) and path_of(e.get('o'), C.alias) == 'this':
                add.add('bounds')
        if not add:
            return None
        return [(frozenset(st.q | add), 'd', None)]

    def at_assign(self, eng, C, node, st):
        x = node.e['x'] if node.kind == 'asg' else node.e.get('e') if node.kind == 'inc' else None
        if self.target != 'null' and x is not None and x['k'] == 'un' and x['op'] == '*' and \
                eng.val(x['e'], st, C) == G('out'):
            return [State(frozenset(st.q | {'pos'}), st.env)]
        return [st]

    def bind(self, eng, C, node, st, t):
        out = {}
        for a, p in zip(node.e['a'], t.params):
            if a is None:
                continue
            v = eng.val(a, st, C)
            if v == G('out'):
                out[('p', 'v%d' % p['d'])] = v
                out[('k', v)] = NONNULL
        return out


class Affine:
    """Weight of a value as a position in the parsed buffer: 1 for absolute positions (and pointers, taken relative to
    the buffer), 0 for distances, None when unknown."""

    def __init__(self, f):
        self.f = f
        self.buf = next((p['d'] for p in f.params if 'string' in p['t'] and '&' in p['t'] and 'd' in p), None)
        self.w = {}
        seen = False
        for p in f.params:
            if 'd' not in p:
                continue
            if p['d'] == self.buf:
                seen = True
            elif seen and p['t'].replace('const ', '').strip() == 'unsigned long':
                self.w[p['d']] = 1
            elif seen and p['t'].strip() == OUT:
                self.w[p['d']] = 1
        fixed = set(self.w)
        self.src = {}
        for n in f.nodes('decl', 'asg'):
            if n['k'] == 'decl':
                for v in n['v']:
                    if v.get('init') is not None and 'd' in v:
                        self.src.setdefault(v['d'], []).append(v['init'])
            else:
                x = n['x']
                if x['k'] == 'ref' and 'd' in x and x['d'] not in fixed:
                    self.src.setdefault(x['d'], []).append(n if 'op' in n and n['op'] != '=' else n['y'])
        for c in f.calls():
            # written through a reference or an address
            for i, a in enumerate(c['a']):
                if a is not None and (a['k'] == 'un' and a['op'] == '&' or i in c.get('ra', ())):
                    x = a['e'] if a['k'] == 'un' else a
                    if x['k'] == 'ref' and x.get('d') not in fixed and 'd' in x:
                        self.src.setdefault(x['d'], []).append(None)
        self.inprog = set()

    def of(self, e):
        if e is None:
            return None
        k = e['k']
        if k in ('cast', 'defarg'):
            return self.of(e['e'])
        if 'cv' in e or k in ('int', 'chr', 'bool', 'sizeof', 'zero'):
            return 0
        if k == 'ref':
            d = e.get('d')
            if d is None or e.get('dk') not in ('local', 'param'):
                return None
            if d not in self.w and d not in self.inprog and d in self.src:
                self.inprog.add(d)
                ws = {self.of(x) for x in self.src[d]}
                self.inprog.discard(d)
                ws.discard('self')
                self.w[d] = ws.pop() if len(ws) == 1 else None
            elif d in self.inprog:
                return 'self'
            return self.w.get(d)
        if k == 'asg':
            if e.get('op') in ('+=', '-=', '+', '-'):
                return 'self' if self.of(e['y']) == 0 else None
            return self.of(e['y'])
        if k == 'un':
            if e['op'] in ('++', '--'):
                return self.of(e['e'])
            if e['op'] == '*':
                x = e['e']
                if x['k'] == 'ref' and any(p.get('d') == x.get('d') for p in outs(self.f)):
                    return 1
            return None
        if k == 'inc':
            return self.of(e['e'])
        if k == 'bin' and e['op'] in ('+', '-'):
            return self.add(e['op'], self.of(e['x']), self.of(e['y']))
        if k == 'cond':
            a, b = self.of(e['x']), self.of(e['y'])
            return a if a == b else None
        if k == 'ctor' and e.get('cp') and len(e['a']) == 1:
            return self.of(e['a'][0])
        if k == 'call':
            n = e.get('f', '').rsplit('::', 1)[-1]
            o = e.get('o')
            if o is not None and o['k'] == 'ref' and o.get('d') == self.buf:
                if n in ('begin', 'cbegin', 'data', 'c_str'):
                    return 0
                if n in ('end', 'cend') or n.startswith('find') or n.startswith('rfind'):
                    return 1
                return None
            xs = ([o] if o is not None else []) + e['a']
            if e.get('op') in ('+', '-') and len(xs) == 2:
                return self.add(e['op'], self.of(xs[0]), self.of(xs[1]))
            if e.get('op') in ('++', '--') and xs:
                return self.of(xs[0])
            if n in ('min', 'max') and len(e['a']) == 2:
                a, b = self.of(e['a'][0]), self.of(e['a'][1])
                return a if a == b else None
        return None

    @staticmethod
    def add(op, a, b):
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        return a + b if op == '+' else a - b


class Created(Rule):
    """State: frozenset of paths of objects parsed but without bounds."""
    interfacts = False

    def __init__(self, classes):
        self.classes = classes

    def direct(self, eng, f):
        return False

    def may_enter(self, eng, f):
        return False

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call' or e.get('o') is None:
            return None
        p = path_of(e['o'], C.alias)
        if not p or p == 'this':
            return None
        n = e['f'].rsplit('::', 1)[-1]
        if n == 'parse' and e.get('rc') and any(c in self.classes for c in ctypes(eng.P, e)):
            return [(frozenset(st.q | {(p, e['l'])}), 'd', None)]
        if n == 'setParsedBounds':
            return [(frozenset(x for x in st.q if x[0] != p), 'd', None)]
        return None


def ctypes(P, e):
    t = P.norm(e.get('ot', '')).replace('const ', '')
    return [c for c in P.records if c == t.rstrip(' *&')]


def check(P, ctx):
    ctx.rule('For every parsing or generating function with an optional output position (newPosition, newLinePos, ...), a '
             'path-sensitive flow analysis, interprocedural through helpers, shows (1) called with a position, every normal '
             'return has written it, (2) called without one, it is never dereferenced; and every parseImpl() has set the '
             'parsed bounds of its object on every normal return (for header fields and parameters: the code that creates '
             'and parses them has). The positions reported are positions in the buffer: an inference of affine types rejects '
             'distances (differences of pointers that are not taken from the start of the buffer).')
    ctx.assumptions.append('a parse function that returns a null object may leave the position unset')
    fam = {f for f in P.fn if f.file.startswith('vmime/') and '/net/' not in f.file and '/security/' not in f.file and
           '/utility/' not in f.file and f.d.get('body') and outs(f) and
           (f.cls in P.records and P.derives(f.cls, COMP) or f.cls == COMP)}
    fam = {f for f in fam if f.params and not f.q.startswith('vmime::body::findNext') and not f.q.endswith('isValidText')}
    exempt = {c for c in P.records if c.startswith('vmime::') and (P.derives(c, 'vmime::headerField') or c in ('vmime::headerField', 'vmime::parameter'))}
    memo = {}

    def sets(f):
        """Does f set the bounds of *this on every normal return?"""
        if f not in memo:
            memo[f] = False
            rule = Pos(fam, 'out')
            rule.sets = sets
            eng = Engine(P, rule, ctx.fx)
            eng.self_class = f.cls
            memo[f] = all('bounds' in q for kind, exc, rv, q, facts in eng.run(f, frozenset(), {}) if kind == 'n')
        return memo[f]
    n = b = 0
    for f in sorted(fam, key=lambda f: (f.file, f.line)):
        for p in outs(f):
            n += 1
            d = 'v%d' % p['d']
            rule = Pos(fam, 'out')
            rule.sets = sets
            eng = Engine(P, rule, ctx.fx)
            eng.self_class = f.cls
            env = {('p', d): G('out'), ('k', G('out')): NONNULL}
            bad = set()
            some = False
            for kind, exc, rv, q, facts in eng.run(f, frozenset(), env):
                if kind != 'n':
                    continue
                some = True
                if 'pos' not in q and not (f.d['rt'].startswith('std::shared_ptr') and rv == ('c', 0)):
                    bad.add('pos')
                if f.name == 'parseImpl' and 'bounds' not in q and f.cls not in exempt and f.cls != COMP:
                    bad.add('bounds')
            ctx.absorb(eng)
            if f.name == 'parseImpl':
                b += 1
            ctx.ob('%s writes %s on every return' % (f.q, p['n']), ctx.at(f), not bad)
            if 'pos' in bad:
                ctx.violation('unset:%s:%s' % (f.q, p['n']), '%s can return without having written *%s' % (f.q, p['n']),
                              f.file, f.line, None, f.q)
            if 'bounds' in bad:
                ctx.violation('bounds:%s' % f.q, '%s can return without having set the parsed bounds' % f.q,
                              f.file, f.line, None, f.q)
            rule = Pos(fam, 'null')
            eng = Engine(P, rule, ctx.fx)
            eng.self_class = f.cls
            eng.run(f, frozenset(), {('p', d): ('c', 0)})
            ctx.absorb(eng)
            ctx.ob('%s without %s' % (f.q, p['n']), ctx.at(f), not rule.bad)
            for g, line, tr in rule.bad[:1]:
                ctx.violation('null:%s:%s' % (f.q, p['n']), '%s dereferences the output position %s that the caller left out'
                              % (f.q, p['n']), g.file, line, tr, g.q)
    # objects whose creator sets the bounds
    sites = 0
    for f in sorted(P.fn, key=lambda f: (f.file, f.line)):
        if not f.file.startswith('vmime/') or not f.d.get('body') or f.cls == COMP or not outs(f):
            continue
        cs = [c for c in f.calls() if c.get('f', '').endswith('::parse') and c.get('o') is not None and
              c['o']['k'] != 'this' and any(x in exempt for x in ctypes(P, c))]
        if not cs or '/net/' in f.file:
            continue
        rule = Created(exempt)
        eng = Engine(P, rule, ctx.fx)
        eng.self_class = f.cls
        pend = set()
        for kind, exc, rv, q, facts in eng.run(f, frozenset(), {}):
            if kind == 'n':
                pend |= q
        ctx.absorb(eng)
        sites += len(cs)
        ctx.ob('%d object(s) parsed by their creator get their bounds' % len(cs), ctx.at(f), not pend)
        for p, line in sorted(pend):
            ctx.violation('created:%s' % f.q, '%s can return an object it parsed without having set its parsed bounds' % f.q,
                          f.file, line, None, f.q)
    ctx.need('objects parsed by their creator', sites, 2)
    # positions are positions
    a = 0
    for f in sorted(P.fn, key=lambda f: (f.file, f.line)):
        if not f.file.startswith('vmime/') or '/net/' in f.file or not f.d.get('body') or f.cls == COMP or \
                f.cls not in P.records or not P.derives(f.cls, COMP):
            continue
        A = Affine(f)
        if A.buf is None:
            continue
        uses = []
        for c in f.calls():
            if c.get('f') == COMP + '::setParsedBounds':
                uses += [(x, 'a bound') for x in c['a']]
        for n_ in f.nodes('asg'):
            x = n_['x']
            if x['k'] == 'un' and x['op'] == '*' and x['e']['k'] == 'ref' and n_.get('op', '=') == '=' and \
                    any(p['d'] == x['e'].get('d') for p in outs(f)):
                uses.append((n_['y'], 'the new position'))
        if not uses:
            continue
        bad = [(x, w) for x, w in uses if A.of(x) not in (1, None, 'self') and x.get('cv') is None]
        known = sum(1 for x, w in uses if A.of(x) == 1)
        a += known
        ctx.ob('%d reported positions (%d typed) are positions' % (len(uses), known), ctx.at(f), not bad)
        for x, w in bad:
            ctx.violation('affine:%s:%s' % (f.q, w.split()[-1]), '%s reports as %s a value that is not a position in the buffer (%d '
                          'absolute positions in its linear form)' % (f.q, w, A.of(x)), f.file, x['l'], None, f.q)
    ctx.need('positions typed', a, 40)
    ctx.need('output positions', n, 40)
    ctx.need('parseImpl functions', b, 18)
