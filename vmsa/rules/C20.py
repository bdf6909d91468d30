"""Pointers that may be null by design are tested before they are used."""
from ..engine import Engine, Rule, State, path_of, is_smart, is_ptrish
from ..program import walk

# getters and members documented as possibly null
OPTIONAL = {'getTimeoutHandler', 'getTracer', 'getTimeoutHandlerFactory', 'getTracerFactory'}
OPTFIELDS = {'m_timeoutHandler', 'm_toHandler', 'm_tracer', 'm_tracerFactory', 'm_toHandlerFactory'}
# the result cannot be null where it is used
OWNED = {'vmime::net::maildir::maildirFormat::context::getStore'}     # a format belongs to its store and is used through it
EXEMPT = {
    'vmime::net::pop3::POP3Message::fetch',     # private; POP3Folder has tested its store before (C07)
    'vmime::net::smtp::SMTPChunkingOutputStreamAdapter::sendChunk',     # exists only during SMTPTransport::send
}
KINDS = {'w': 'the object a weak reference points to, which may no longer exist',
         'o': 'an optional handler, which may not be set', 'f': 'a pointer that may be null'}


def last(e):
    return e.get('f', '').rsplit('::', 1)[-1]


def is_lock(e):
    f = e.get('f', '')
    return e['k'] == 'call' and f.startswith('std::weak_ptr<') and f.endswith('::lock')


class Deref(Rule):
    interfacts = False

    def __init__(self, P, nullfn, inner=()):
        self.inner = inner      # functions analysed in the context of their callers only
        self.P = P
        self.nullfn = nullfn
        self.bad = {}
        self.sites = set()
        self.ret = False

    def direct(self, eng, f):
        return f in self.inner

    def may_enter(self, eng, f):
        return f in self.inner

    def bind(self, eng, C, node, st, t):
        o = node.e.get('o')
        if o is None or path_of(o, C.alias) != 'this':
            return None
        return {k: v for k, v in st.env.items() if k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'N'
                and len(k[1][1]) == 5 and (k[1][1][3] == 'this' or k[1][1][3][1][0] == 'p' and
                                           k[1][1][3][1][1].startswith('this.'))}

    def source(self, e, C=None):
        """Kind of nullable value an expression produces by itself."""
        if e.get('f') in OWNED:
            return None
        if e['k'] != 'call':
            return None
        if is_lock(e):
            return 'w'
        if is_ptrish(e.get('t')):
            if last(e) in OPTIONAL:
                return 'o'
            ts = self.P.targets(e)
            ks = {self.nullfn.get(t) for t in ts} - {None}
            if ks:
                return sorted(ks)[0]
        return None

    def nullpath(self, e):
        """Member whose lock() a getter returns."""
        ts = self.P.targets(e)
        if len(ts) != 1 or e['a']:
            return None
        b = ts[0].d.get('body')
        b = b['b'] if b and b['k'] == 'block' else []
        if len(b) != 1 or b[0]['k'] != 'ret' or b[0].get('e') is None:
            return None
        for x in walk(b[0]['e']):
            if x.get('k') == 'call' and is_lock(x) and x['o'].get('k') == 'mem' and x['o']['b'].get('k') == 'this':
                return x['o']['n']
        return None

    def kind_of(self, v):
        if v[0] == 's' and v[1][0] == 'N':
            return v[1][1]
        if v[0] == 's' and v[1][0] == 'p':
            n = v[1][1].rsplit('.', 1)
            if len(n) == 2 and n[1] in OPTFIELDS:
                return 'o'
        return None

    def use(self, eng, C, node, st, o, what):
        v = eng.val(o, st, C)
        k = self.kind_of(v)
        if k is None:
            return st
        self.sites.add((C.func.q, node.e.get('i') if node.e else node.i))
        nl = eng.is_null(v, st)
        if nl is not False and any(x[0] == 'r' and r == '=' and v in (x[1], x[2]) and
                                   self.kind_of(x[2] if x[1] == v else x[1]) is None for x, r in st.env.items()):
            nl = False          # equal to a pointer that is not nullable
        if nl is not False:
            key = (C.func, node.line)
            if key not in self.bad:
                self.bad[key] = (k, what, eng.trace())
        c = eng.assume(v, True, st)
        return c[0] if c else None

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        o = e.get('o')
        diff = ()
        if o is not None:
            s = st
            if e.get('op') in ('->', '*') and is_smart(e.get('ot')):
                s = self.use(eng, C, node, st, o, last(e))
            elif e.get('ot', '').rstrip().endswith('*') and not e.get('op'):
                s = self.use(eng, C, node, st, o, last(e))
            if s is None:
                return []
            if s is not st:
                diff = tuple((k, v) for k, v in s.env.items() if st.env.get(k) != v)
                st = s
        k = self.source(e)
        if k:
            o = e.get('o')
            if k == 'w' and not is_lock(e):
                # getter of a weak reference
                m = self.nullpath(e)
                b = 'this' if o is None else path_of(o, C.alias)
                if m and b:
                    b += '.' + m
                    return [(st.q, 'n', ('s', ('N', k, 'o', st.env.get(('p', b), ('s', ('p', b))), 'lock')), diff)]
            if not e['a']:
                # the same getter on the same object (the same weak reference) gives the same pointer
                b = 'this' if o is None or o['k'] == 'this' else eng.val(o, st, C)
                if b == 'this' or b[0] == 's':
                    return [(st.q, 'n', ('s', ('N', k, 'o', b, last(e))), diff)]
            sym = ('s', ('N', k, C.func.id, e['i']))
            return [(st.q, 'n', sym, diff + ((('k', sym), None),))]
        return [(st.q, 'd', None, diff)] if diff else None

    def at_return(self, eng, C, node, st, v):
        if v is not None and self.kind_of(v) and eng.is_null(v, st) is not False:
            self.ret = self.kind_of(v)
        return [st]


def check(P, ctx):
    ctx.rule('Flow analysis of every function: a value obtained from weak_ptr::lock(), from an optional getter or member '
             '(time-out handler, tracer, their factories), or from a function that returns such a value untested, must '
             'have been compared with null on every path before it is dereferenced.')
    nullfn = {}
    todo = []
    for f in P.fn:
        if not f.d.get('body'):
            continue
        todo.append(f)
    callers = {}
    for f in todo:
        for c in f.calls():
            for t in P.targets(c):
                callers.setdefault(t, set()).add(f)

    def interesting(f):
        for n in f.nodes('call', 'mem'):
            if n['k'] == 'mem':
                if n['n'] in OPTFIELDS:
                    return True
            elif is_lock(n) or last(n) in OPTIONAL or any(t in nullfn for t in P.targets(n)):
                return True
        return False
    def only_self(f):
        if f.d.get('acc') not in ('private', 'protected') or f.d.get('virt') or not callers.get(f):
            return False
        if '::(lambda' in f.q:
            return False
        for g in callers[f]:
            for c in g.calls():
                if f in P.targets(c) and not (c.get('o') is None or c['o'].get('k') == 'this'):
                    return False
        return True
    work = [f for f in todo if interesting(f)]
    inner = {f for f in work if only_self(f)}
    reach = set()
    up = list(inner)
    while up:
        for c in callers.get(up.pop(), ()):
            if c not in reach:
                reach.add(c)
                if only_self(c):
                    inner.add(c)
                    up.append(c)
    work = sorted((set(work) | reach) - inner, key=lambda f: (f.file, f.line))
    ctx.counts['private functions analysed in the context of their callers'] = len(inner)
    bad, sites = {}, {}
    funcs = set()
    rounds = 0
    while work:
        rounds += 1
        nxt = set()
        for f in work:
            rule = Deref(P, nullfn, inner)
            eng = Engine(P, rule, ctx.fx)
            eng.run(f, 's', {})
            ctx.absorb(eng)
            funcs.add(f)
            bad[f] = rule.bad
            sites[f] = rule.sites
            if rule.ret and f not in nullfn and not ctx.fx.getter_path(f) and is_ptrish(f.d.get('rt', '')):
                nullfn[f] = rule.ret
                nxt |= callers.get(f, set())
        work = sorted(nxt, key=lambda f: f.q)
    ctx.counts['functions returning a possibly null pointer'] = len(nullfn)
    n = 0
    for f in sorted(funcs, key=lambda f: (f.file, f.line)):
        n += len(sites[f])
        if f.q in EXEMPT:
            continue
        if sites[f]:
            ctx.ob('nullable pointers are tested before use (%d uses)' % len(sites[f]), ctx.at(f), not bad[f])
        for (g, line), (k, what, tr) in sorted(bad[f].items(), key=lambda x: x[0][1]):
            ctx.violation('null:%s:%s' % (g.q, what), '%s uses %s without a test' % (g.q, KINDS[k]), g.file, line, tr, g.q)
    ctx.need('functions with nullable pointers', len(funcs), 100)
    ctx.need('uses of nullable pointers', n, 200)
