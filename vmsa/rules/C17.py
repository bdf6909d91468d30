"""Waiting for the network always gives the timeout handler its say."""
from ..engine import Engine, Rule, path_of
from ..cfg import cfg_of
from .C16 import noreturn, strip

TH = 'vmime::net::timeoutHandler::'
SOCK = 'vmime::net::socket::'
NOTREADY = (None, 0, frozenset())
ZERO = (0, 0, frozenset())
NONZERO = (None, None, frozenset([0]))
READY = (1, None, frozenset())
NEG = (None, -1, frozenset())
NONNEG = (0, None, frozenset())

# C call -> (constraint of the value when nothing happened, constraint otherwise, needs the delay to be started before)
WAITC = {
    # a failed poll() did not wait
    'poll': (ZERO, NONZERO, False),
    'select': (ZERO, NONZERO, False),
    # 0 and EAI_ALLDONE (-103): the request is finished
    'gai_suspend': ((None, None, frozenset([0, -103])), [ZERO, (-103, -103, frozenset())], True),
    'gnutls_handshake': (NEG, NONNEG, True),
    'SSL_do_handshake': (NOTREADY, READY, True),
    'gnutls_record_send': (NEG, READY, True),
    'SSL_write': (NOTREADY, READY, True),
}


def inloop(C, idx):
    """Nodes that can be executed again after themselves."""
    out = set()
    for i in idx:
        seen, st = set(), [t for l, t in C.nodes[i].succ if l != 'X']
        while st:
            j = st.pop()
            if j in seen:
                continue
            seen.add(j)
            st += [t for l, t in C.nodes[j].succ]
        if i in seen:
            out.add(i)
    return out


def wait(P, f, e):
    """(kind, not-ready, ready, strict, buffer expression) of a waiting call."""
    if e['k'] != 'call':
        return None
    w = WAITC.get(e.get('f'))
    if w:
        return ('c',) + w + (None,)
    n = P.names(e)
    if SOCK + 'receive' in n and e['a']:
        return ('s', None, None, True, e['a'][0])
    if SOCK + 'receiveRaw' in n:
        return ('c', (0, 0, frozenset()), READY, True, None)
    if 'vmime::utility::inputStream::read' in n and any('inputStreamSocketAdapter' in c.get('c', '') for c in f.calls()):
        return ('c', (0, 0, frozenset()), READY, True, None)
    return None


def unbounded(f, e):
    """Why a waiting C call can wait for ever; '' when it can not, None when it is not such a call."""
    i = {'poll': 2, 'gai_suspend': 2, 'select': 4}.get(e.get('f'))
    if i is None or len(e['a']) <= i:
        return None
    a = strip(e['a'][i])
    if e['f'] != 'poll':
        return 'without a time limit' if a['k'] in ('null', 'nullptr') or a.get('cv') == 0 else ''
    v = a.get('cv')
    if v is not None:
        return 'without a time limit' if v < 0 or v > 60000 else ''
    return ''


class Wait(Rule):
    max_states = 120
    interfacts = True

    def __init__(self, P, root, loops):
        self.P, self.root, self.loops = P, root, loops
        self.bad = []

    def direct(self, eng, f):
        if f.file != self.root.file and any(wait(self.P, f, c) for c in f.calls()):
            return False
        return any(c.get('f', '').startswith(TH) or self.P.names(c) & {TH + 'isTimeOut', TH + 'resetTimeOut'}
                   for c in f.calls())

    def may_enter(self, eng, f):
        return f.file == self.root.file and f.cls == self.root.cls or self.direct(eng, f)

    def report(self, what, line):
        self.bad.append((what, line))

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        P, q = self.P, st.q
        n = P.names(e)
        if TH + 'isTimeOut' in n:
            if q == 'data':
                self.report('checks the delay again after data was received without having restarted it', node.line)
            return [('armed' if q != 'start' else 'start', 'n', ('c', 0)), ('expired', 'n', ('c', 1)), (q, 'x', '?')]
        if TH + 'handleTimeOut' in n:
            return [('handled', 'n', ('c', 1)), ('refused', 'n', ('c', 0)), (q, 'x', '?')]
        if TH + 'resetTimeOut' in n:
            if q == 'waited':
                self.report('restarts the delay although nothing was received', node.line)
            return [('armed' if q not in ('expired', 'refused') else q, 'n', None), (q, 'x', '?')]
        if 'timeoutHandler>' in e.get('t', '') and (e.get('f', '').endswith('::lock') or
                                                    e.get('f', '').endswith('getTimeoutHandler')):
            return [(q, 'n', ('nn', 'toh'))]
        if e.get('f', '').startswith('std::') and e.get('o') is not None and q in ('waited', 'data') and \
                path_of(e['o'], C.alias) == self.buf(C):
            m = e['f'].rsplit('::', 1)[-1]
            if m == 'empty':
                return [(q, 'n', ('c', int(q == 'waited')))]
            if m in ('length', 'size'):
                return [(q, 'n', ('c', 0) if q == 'waited' else ('k', READY))]
        w = wait(P, C.func, e)
        if w and (C.func is not self.root or node.i in self.loops or q == 'waited'):
            kind, no, yes, strict, buf = w
            self.last = path_of(buf, C.alias) if buf is not None else None
            if q == 'waited':
                self.report('waits again without asking whether the delay has elapsed', node.line)
            elif q in ('expired', 'refused'):
                self.report('keeps waiting although the timeout handler did not allow it', node.line)
            elif q == 'handled':
                self.report('keeps waiting without restarting the delay', node.line)
            elif q == 'start' and strict:
                self.report('starts waiting without having restarted the delay', node.line)
            elif q == 'data':
                self.report('waits for more data without having restarted the delay', node.line)
            got = 'data' if kind == 's' or 'read' in e.get('f', '') or 'receiveRaw' in e.get('f', '') else 'armed'
            out = [('waited', 'n', ('k', no) if no else None)]
            for y in yes if isinstance(yes, list) else [yes]:
                out.append((got, 'n', ('k', y) if y else None))
            if kind == 's' or e.get('id') and P.targets(e):
                out.append((q, 'x', '?'))
            return out
        if q == 'waited' and any(t.cls == self.root.cls and t is not self.root and self.consults(t) for t in P.targets(e)):
            return None
        return None

    def buf(self, C):
        return getattr(self, 'last', None)

    def consults(self, t):
        return False

    def at_exit(self, eng, C, node, st):
        if C.func is not self.root:
            return
        if st.q in ('expired', 'refused'):
            self.report('can return normally after the timeout handler has cancelled the operation'
                        if st.q == 'refused' else 'ignores that the delay has elapsed', self.root.d['body'].get('el', 0))


def check(P, ctx):
    ctx.rule('For every function that waits for the network in a loop (poll, asynchronous resolution, TLS handshake and '
             'record writes, socket reads) and every function that asks the timeout handler, all paths are followed with '
             'a handler installed: between two fruitless waits isTimeOut() is asked; when it says yes handleTimeOut() is '
             'called; a refusal never leads to another wait or to a normal return; a consent restarts the delay before the '
             'next wait; the delay is started before the first wait and restarted after data was received.')
    nr = noreturn(P)
    n = nw = 0
    for f in P.fn:
        if not f.file.startswith(('vmime/net/', 'vmime/platforms/', 'vmime/security/')) or not f.d.get('body'):
            continue
        asks = any(P.names(c) & {TH + 'isTimeOut'} for c in f.calls()) and f.cls not in P.subclasses(TH[:-2])
        ws = [c for c in f.calls() if wait(P, f, c)]
        if not asks and not ws:
            continue
        for c in ws:
            why = unbounded(f, c)
            if why is not None:
                ctx.ob('the wait is bounded', ctx.at(f, c.get('l')), not why)
                if why:
                    ctx.violation('unbounded:%s:%s' % (f.q, c.get('f')), '%s waits in %s() %s: the timeout handler is never asked' %
                                  (f.q, c.get('f'), why), f.file, c.get('l', 0), None, f.q)
        C = cfg_of(f)
        wid = {c['i'] for c in ws}
        nodes = [x.i for x in C.nodes if x.kind == 'call' and x.e is not None and x.e.get('i') in wid]
        loops = inloop(C, nodes)
        if not loops and not asks:
            continue
        n += 1
        nw += len(loops)
        rule = Wait(P, f, loops)
        old = rule.direct
        rule.direct = lambda eng, g, old=old: g in nr or old(eng, g)
        eng = Engine(P, rule, ctx.fx)
        env = {('p', 'this.m_timeoutHandler'): ('nn', 'toh')}
        eng.run(f, 'start', env)
        ctx.absorb(eng)
        ctx.ob('the timeout handler is consulted', ctx.at(f), not rule.bad)
        for what, line in dict.fromkeys(rule.bad):
            ctx.violation('timeout:%s:%s' % (f.q, what[:50]), '%s %s' % (f.q, what), f.file, line, None, f.q)
    ctx.need('waiting functions', n, 7)
    ctx.need('waits in loops', nw, 6)
