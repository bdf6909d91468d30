"""Progress listeners: start, progress and stop come in order, on every normal path, and never through a null pointer."""
from ..cfg import cfg_of
from ..program import walk

PL = 'progressListener'


def strip(e):
    while e is not None and e.get('k') in ('cast', 'paren'):
        e = e['e']
    return e


def listener(t):
    return PL in (t or '') and '*' in t


class Track:
    """The values of one listener pointer in one function: parameter or member, and what it is copied into."""

    def __init__(self, f, d=None, fld=None):
        self.f, self.d, self.fld = f, d, fld
        self.alias, self.wrap = set(), set()
        asg = {n['x']['d'] for n in f.nodes('asg') if n['x'].get('k') == 'ref' and n['x'].get('d') is not None}
        self.bools = {}
        for dc in f.nodes('decl'):
            for v in dc['v']:
                i = strip(v.get('init'))
                if i is None or v.get('d') in asg:
                    continue
                if self.is_(i) and listener(v.get('t')):
                    self.alias.add(v['d'])
                elif PL in v.get('t', '') and any(self.is_(y) for y in walk(i)):
                    self.wrap.add(v['d'])           # an adapter around it
                elif v.get('t', '').replace('const ', '').strip() in ('bool', '_Bool'):
                    self.bools[v['d']] = i

    def is_(self, e):
        e = strip(e)
        if e is None:
            return False
        if e.get('k') == 'ref':
            return e.get('d') is not None and (e['d'] == self.d or e['d'] in self.alias)
        if e.get('k') == 'mem':
            return self.fld is not None and e.get('n') == self.fld and strip(e['b']).get('k') == 'this'
        return False

    def carries(self, e):
        return any(self.is_(y) or y.get('k') == 'ref' and y.get('d') in self.wrap for y in walk(e))

    def nonnull(self, e, depth=0):
        """True when the condition says that the pointer is not null, False when that it is, None when neither."""
        e = strip(e)
        if e is None or depth > 4:
            return None
        if self.is_(e):
            return True
        if e.get('k') == 'un' and e.get('op') == '!':
            x = self.nonnull(e['e'], depth + 1)
            return None if x is None else not x
        if e.get('k') == 'bin' and e.get('op') in ('==', '!='):
            for a, b in ((e['x'], e['y']), (e['y'], e['x'])):
                if self.is_(a) and (strip(b).get('k') == 'null' or strip(b).get('cv') == 0):
                    return e['op'] == '!='
        if e.get('k') == 'ref' and e.get('d') in self.bools:
            return self.nonnull(self.bools[e['d']], depth + 1)
        return None


def check(P, ctx):
    ctx.rule('For each function that receives a progress listener, the calls of start, progress and stop and the calls the listener '
             'is handed to are followed along all paths, once with the listener set and once with a null pointer: start comes '
             'before progress, each started operation is stopped once before the function returns, and nothing is called '
             'through the null pointer.')
    ctx.assumptions += ['a listener does not throw and does not destroy the object that reports to it',
                        'a path that ends by an exception does not have to call stop']
    st = {'functions': 0, 'paths': 0, 'members': 0}

    def event(T, e):
        """start progress stop, fwd, null (a callee that reports is given no listener) or None."""
        k = e.get('k')
        if k == 'call' and e.get('o') is not None and T.is_(e['o']):
            return e.get('f', '').rsplit('::', 1)[-1]
        if k not in ('call', 'ctor'):
            return None
        args = e.get('a', [])
        if k == 'call' and any(T.carries(a) for a in args):
            return 'fwd'
        if k == 'ctor' and any(T.carries(a) for a in args) and PL not in e.get('c', ''):
            return 'fwd'
        ts = P.funcs.get(e.get('id')) or []
        for t in ts[:1]:
            for i, q in enumerate(t.d['p']):
                if listener(q.get('t')):
                    return 'null'
            if k == 'call' and any(listener(q.get('t')) for o in P.byq.get(t.q, []) for q in o.d['p']) and not e.get('op'):
                return 'null'
        return None

    def report(key, msg, f, line):
        ctx.violation(key, msg, f.file, line, None, f.q)

    CF, memo, active = {}, {}, set()

    def target(e, T):
        """The function a listener is handed to, with its parameter, when it is known and is not virtual."""
        if e.get('k') != 'call' or e.get('virt') and not e.get('ec'):
            return None
        ts = [t for t in P.funcs.get(e.get('id')) or [] if t.d.get('body') is not None]
        for t in ts[:1]:
            for i, q in enumerate(t.d['p']):
                if listener(q.get('t')) and i < len(e['a']) and T.is_(e['a'][i]) and not t.d.get('virt'):
                    return t, q
        return None

    def explore(f, T, isnull, first='N'):
        """The phases before each event, the phases at each exit and what is wrong, for one phase at the entry."""
        key = (f.d['id'], f.file, f.line, T.d, T.fld, isnull, first)
        if key in memo:
            return memo[key]
        if key in active:
            return {}, {}, {}
        active.add(key)
        C = CF.setdefault((f.d['id'], f.file, f.line), None) or cfg_of(f)
        CF[(f.d['id'], f.file, f.line)] = C
        entry = C.entry.i if hasattr(C.entry, 'i') else C.entry
        seen = {entry: {(first, 0)}}
        work = [entry]
        exits, bad = {}, {}

        def wrong(n, what, msg, g=None, line=None):
            bad.setdefault(((g or f).q, what), (msg, g or f, line or n.line))

        while work:
            i = work.pop()
            n = C.nodes[i]
            ev = event(T, n.e) if n.kind in ('call', 'ctor') and n.e is not None else None
            tg = target(n.e, T) if ev == 'fwd' else None
            nxt = set()
            for ph, nul in seen[i]:
                st['paths'] += 1
                if ev in ('start', 'progress', 'stop') and isnull:
                    wrong(n, 'null:' + ev, 'calls %s() without a test for a null listener' % ev)
                    continue
                if ev is None or ph == 'U':
                    nxt.add((ph, nul))
                elif ev == 'start':
                    if ph == 'S':
                        wrong(n, 'start', 'start() may be called while the operation is in progress')
                    nxt.add(('S', nul))
                elif ev == 'progress':
                    if ph != 'S':
                        wrong(n, ev, 'progress() may be called %s' % ('before start()' if ph == 'N' else 'after stop()'))
                    nxt.add((ph, nul))
                elif ev == 'stop':
                    if ph != 'S':
                        wrong(n, ev, 'stop() may be called %s' % ('without start()' if ph == 'N' else 'a second time'))
                    nxt.add(('D', nul))
                elif ev == 'null':
                    nxt.add((ph, n.line))
                elif tg is not None:
                    t, q = tg
                    T2 = Track(t, q.get('d'))
                    _s, x2, b2 = explore(t, T2, isnull, ph)
                    if b2 and ph != 'N' and not explore(t, T2, isnull, 'N')[2]:
                        wrong(n, 'handed', 'the listener is handed to %s() while the operation is in progress' % t.q)
                    else:
                        for k, v in b2.items():
                            bad.setdefault(k, v)
                    outs = {p for ss in x2.values() for p, _n in ss}
                    # what is still in progress there may be stopped here
                    for p2 in outs or {ph}:
                        nxt.add(('F' if p2 == 'D' and ph != 'S' else p2, nul))
                elif n.kind == 'ctor':
                    nxt.add(('U', nul))
                else:
                    if ph == 'S' and not isnull:
                        wrong(n, 'handed', 'the listener is handed on while the operation is in progress')
                    nxt.add((ph if ph == 'S' else 'F', nul))
            for lab, t in n.succ:
                if lab == 'X' and ev in ('start', 'progress', 'stop'):
                    continue
                # what a callee that throws has reported is unknown: keep the phase before
                go = seen[i] if lab == 'X' else nxt
                if n.kind == 'br' and lab in ('T', 'F'):
                    v = T.nonnull(n.e)
                    if v is not None and (v != isnull) != (lab == 'T'):
                        continue
                if C.nodes[t].kind == 'exit':
                    exits.setdefault(i, set()).update(go)
                if not go <= seen.get(t, set()):
                    seen.setdefault(t, set()).update(go)
                    work.append(t)
        active.discard(key)
        memo[key] = (seen, exits, bad)
        return memo[key]

    fns = [f for f in sorted(P.fn, key=lambda f: f.sig()) if f.d.get('body') is not None and f.file.startswith('vmime/')]
    helped = set()      # functions that are followed from the functions that hand them their listener
    for f in fns:
        for p in f.d['p']:
            if listener(p.get('t')):
                T = Track(f, p.get('d'))
                for c in f.calls():
                    tg = target(c, T)
                    if tg is not None and tg[0].d['id'] != f.d['id']:
                        helped.add(tg[0].d['id'])
    done, told = set(), set()

    def tell(bad):
        for (q, what), (msg, g, line) in sorted(bad.items()):
            if (q, what) not in told:
                told.add((q, what))
                report('%s:%s' % (what, q), '%s: %s' % (q, msg), g, line)

    for f in fns:
        if (f.q, f.file, f.line) in done:
            continue
        done.add((f.q, f.file, f.line))
        ctor = f.cls is not None and f.q.rsplit('::', 1)[-1] == f.cls.rsplit('::', 1)[-1]
        for p in f.d['p']:
            if not listener(p.get('t')):
                continue
            st['functions'] += 1
            T = Track(f, p.get('d'))
            seen, exits, bad = explore(f, T, False)
            used = T.carries({'a': [f.d['body'], f.d.get('inits') or []]}) or any(True for _n in f.nodes('lambda'))
            ok = used or not exits
            ctx.ob('a listener is told about the operation', f.q, ok)
            if not ok:
                report('unused:' + f.q, '%s never informs the listener it is given' % f.q, f, f.line)
                continue
            if ctor or f.d['id'] in helped and not f.d.get('virt'):
                continue        # a constructor starts, another function stops; a helper is followed from its callers
            ctx.ob('start, progress and stop come in order', f.q, not bad)
            tell(bad)
            for i, ss in sorted(exits.items()):
                n = CF[(f.d['id'], f.file, f.line)].nodes[i]
                on = any(ph == 'S' for ph, _n in ss)
                ctx.ob('each operation is stopped', f.q, not on)
                if on:
                    report('unstopped:' + f.q, '%s may return without stop() after start()' % f.q, f, n.line)
                nul = [x for ph, x in ss if ph == 'N' and x]
                ctx.ob('a listener is told about the operation', '%s return' % f.q, not nul)
                if nul:
                    report('dropped:' + f.q, '%s may return without having informed the listener: what does the work is not given it'
                           % f.q, f, min(nul))
            seen, exits, bad = explore(f, T, True)
            ctx.ob('no call through a null listener', f.q, not bad)
            tell(bad)
        own = {p.get('d') for p in f.d['p']}
        T0 = [Track(f, p.get('d')) for p in f.d['p'] if listener(p.get('t'))]
        for dc in f.nodes('decl'):
            for v in dc['v']:
                # a listener that is got from elsewhere
                if not listener(v.get('t')) or v.get('d') in own or any(v['d'] in t.alias for t in T0) or v.get('static'):
                    continue
                st['functions'] += 1
                T = Track(f, v['d'])
                for isnull in (False, True):
                    _s, exits, bad = explore(f, T, isnull)
                    ctx.ob('start, progress and stop come in order', '%s %s %s' % (f.q, v['n'], isnull), not bad)
                    tell(bad)
                    on = any(ph == 'S' for ss in exits.values() for ph, _n in ss)
                    ctx.ob('each operation is stopped', '%s %s' % (f.q, v['n']), not on)
                    if on:
                        report('unstopped:' + f.q, '%s may return without stop() after start()' % f.q, f, f.line)
        last = f.q.rsplit('::', 1)[-1]
        if f.cls and PL in f.cls and last in ('start', 'progress', 'stop'):
            for fld in sorted({n['n'] for n in f.nodes('mem') if listener(n.get('t')) and strip(n['b']).get('k') == 'this'}):
                T = Track(f, None, fld)
                C = cfg_of(f)
                seen = {C.entry.i: {0}}
                work, ends = [C.entry.i], set()
                while work:
                    n = C.nodes[work.pop()]
                    ev = event(T, n.e) if n.kind == 'call' else None
                    nxt = seen[n.i] if ev != last else {min(x + 1, 2) for x in seen[n.i]}
                    for lab, t in n.succ:
                        if lab == 'X':
                            continue
                        v = T.nonnull(n.e) if n.kind == 'br' else None
                        if v is not None and v != (lab == 'T'):
                            continue
                        if C.nodes[t].kind == 'exit':
                            ends |= nxt
                        if not nxt <= seen.get(t, set()):
                            seen.setdefault(t, set()).update(nxt)
                            work.append(t)
                ok = ends <= {1}
                ctx.ob('an adapter passes on each call once', f.q, ok)
                if not ok:
                    report('adapter:' + f.q, '%s may %s' % (f.q, 'pass the call on more than once' if 2 in ends else
                                                            'return without passing the call on'), f, f.line)
        if f.cls and not ctor:
            for fld in sorted({n['n'] for n in f.nodes('mem') if listener(n.get('t')) and strip(n['b']).get('k') == 'this'}):
                st['members'] += 1
                T = Track(f, None, fld)
                _s, _e, bad = explore(f, T, True)
                ctx.ob('no call through a null listener', '%s %s' % (f.q, fld), not bad)
                tell(bad)
                evs = {event(T, c) for c in f.calls()}
                if not {'start', 'stop'} <= evs:
                    continue
                _s, exits, bad = explore(f, T, False)
                ctx.ob('start, progress and stop come in order', '%s %s' % (f.q, fld), not bad)
                tell(bad)
                on = any(ph == 'S' for ss in exits.values() for ph, _n in ss)
                ctx.ob('each operation is stopped', '%s %s' % (f.q, fld), not on)
                if on:
                    report('unstopped:' + f.q, '%s may return without stop() after start()' % f.q, f, f.line)
    for k, n in st.items():
        ctx.count(k, n)
    ctx.need('functions with a listener', st['functions'], 20)
