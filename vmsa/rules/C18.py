"""No exception leaves a destructor, a noexcept function or a C callback."""
from ..program import walk


def strip(x):
    while x is not None and x['k'] in ('cast', 'un', 'defarg'):
        x = x['e']
    return x


def callbacks(P):
    """Functions of the library whose address is handed to C code."""
    out = {}
    for f in P.fn:
        for c in f.calls():
            if not c.get('ec'):
                continue
            for a in c['a']:
                x = strip(a)
                if x is not None and x['k'] == 'ref' and x.get('dk') == 'func':
                    for g in P.funcs.get(x['id'], []):
                        out[g] = (f, c)
    for g in P.globals.values():
        # tables of function pointers
        for x in walk(g.get('init') or {}):
            if x.get('k') == 'ref' and x.get('dk') == 'func':
                for h in P.funcs.get(x['id'], []):
                    out.setdefault(h, None)
    return out


def origin(P, fx, f, types):
    """A call chain from f to a place the exception comes from."""
    chain, seen, cur = [], set(), f
    for _ in range(25):
        seen.add(cur)
        nxt = None
        for n in cur.nodes('call', 'ctor', 'throw'):
            if n['k'] == 'throw' and 'tt' in n and P.norm(n['tt']) in types:
                chain.append({'function': cur.q, 'file': cur.file, 'lines': [n['l']]})
                return chain
            if n['k'] != 'throw' and fx.call_throws(n) & types:
                ts = [t for t in P.targets(n) if fx.throws(t) & types and t not in seen]
                nxt = (n, ts[0] if ts else None)
                if ts:
                    break
        if nxt is None:
            return chain
        chain.append({'function': cur.q, 'file': cur.file, 'lines': [nxt[0]['l']]})
        if nxt[1] is None:
            return chain
        cur = nxt[1]
    return chain


def check(P, ctx):
    fx = ctx.fx
    ctx.rule('Every destructor, every function declared noexcept and every function whose address is passed to a C '
             'library must have an empty set of escaping exception types; the sets are the least fixpoint, over the '
             'class-hierarchy call graph, of throw expressions, rethrows, application-implemented virtual calls (any '
             'type) and the try/catch filters on the way.')
    ctx.assumptions += ['allocation failure (std::bad_alloc) is out of scope',
                        'functions with C linkage do not throw']
    dt = [f for f in P.fn if f.kind == 'dtor' and not f.d.get('implicit')]
    cbs = callbacks(P)
    ne = [f for f in P.fn if f.d.get('nothrow') and f.kind != 'dtor' and not f.d.get('implicit')
          and not f.d.get('defaulted')]
    for what, fs in (('destructor', dt), ('C callback', sorted(cbs, key=lambda f: f.q)), ('noexcept function', ne)):
        for f in fs:
            ctx.funcs.add(f.sig())
            types = fx.throws(f)
            ctx.ob('no exception escapes this ' + what, ctx.at(f), not types)
            if types:
                ch = origin(P, fx, f, types)
                names = ', '.join(sorted('any exception raised by an application-supplied object' if t == '?' else t
                                         for t in types)[:4])
                ctx.violation('%s:%s' % (what.split()[0], f.q),
                              '%s %s lets an exception escape (%s)' % (what, f.q, names),
                              f.file, f.line, ch, f.q)
    ctx.need('explicit destructors', len(dt), 60)
    ctx.need('functions handed to C libraries', len(cbs), 4)
