"""Reads and writes account for every byte; an error is never a byte count."""
import re

from ..engine import Engine, Rule, State, path_of
from ..program import walk
from ..cfg import cfg_of

RC = ('s', ('G', 'rc'))
NEG = (None, -1, frozenset())
M1 = (-1, -1, frozenset())
NONPOS = (None, 0, frozenset())
POS = (1, None, frozenset())

# C primitive -> (direction, buffer argument, length argument, values meaning failure)
PRIM = {
    'read': ('r', 1, 2, M1), 'recv': ('r', 1, 2, M1), 'write': ('w', 1, 2, M1), 'send': ('w', 1, 2, M1),
    'SSL_read': ('r', 1, 2, NONPOS), 'SSL_write': ('w', 1, 2, NONPOS),
    'gnutls_record_recv': ('r', 1, 2, NEG), 'gnutls_record_send': ('w', 1, 2, NEG),
}
SOCK = 'vmime::net::socket::'
OUT = 'vmime::utility::outputStream::'
IN = 'vmime::utility::inputStream::'
UNSIGNED = re.compile(r'^(const )?(unsigned|size_t|vmime::size_t)')


def strip(e):
    while e is not None and e['k'] in ('cast', 'defarg'):
        e = e['e']
    return e


def prim(e, nb=False):
    """(direction, buffer, length, failure) of a primitive transfer call."""
    f = e.get('f', '')
    if e['k'] != 'call':
        return None
    p = PRIM.get(f)
    if p and len(e['a']) >= 3:
        for a in e['a'][3:]:
            if a.get('cv') == 2:      # MSG_PEEK: nothing is consumed
                return None
        return (p[0], e['a'][p[1]], e['a'][p[2]], p[3])
    return None


def noreturn(P):
    """Functions none of whose paths returns normally."""
    done = set()
    ch = True
    while ch:
        ch = False
        for f in P.fn:
            if f in done or not f.d.get('body') or f.kind in ('ctor', 'dtor'):
                continue
            if not any(True for _ in f.nodes('throw')) and not any(
                    P.targets(c) and all(t in done for t in P.targets(c)) for c in f.calls()):
                continue
            C = cfg_of(f)
            seen, st = {C.entry.i}, [C.entry.i]
            while st:
                n = C.nodes[st.pop()]
                dead = False
                if n.kind in ('call', 'ctor') and n.e is not None and n.e.get('id'):
                    ts = P.targets(n.e)
                    dead = bool(ts) and all(t in done for t in ts)
                for lab, t in n.succ:
                    if dead and lab != 'X':
                        continue
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
            if C.exit.i not in seen:
                done.add(f)
                ch = True
    return done


class Xfer(Rule):
    """q = (phase, updates) ; phase: start / err / ok, 'S' in updates: would-block status set."""
    max_states = 200
    max_outs = 60

    def __init__(self, P, root, isprim, nr, ctx):
        self.P, self.root, self.isprim, self.nr, self.ctx = P, root, isprim, nr, ctx
        self.bad = []
        self.lenp = 'v%d' % root.params[-1]['d'] if root.params else ''

    def direct(self, eng, f):
        if f in self.nr:
            return True
        return f is not self.root and f.file == self.root.file and any(True for _ in f.nodes('throw')) and \
            f.cls == self.root.cls and any(self.called(c, f) for c in self.root.calls())

    def called(self, c, f):
        return f in self.P.targets(c)

    def may_enter(self, eng, f):
        return f.file == self.root.file

    def report(self, what, line):
        self.bad.append((what, line))

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call' or C.func is not self.root:
            return None
        p = self.isprim(e)
        if not p:
            return None
        d, buf, ln, fail = p
        phase, upd = st.q
        self.buf, self.ln = buf, ln
        if phase == 'ok' and d == 'w':
            if not self.advanced(eng, C, st, upd):
                self.report('writes again without having accounted for the bytes already written', node.line)
        if phase == 'start' and d == 'w' and not upd:
            self.initial(eng, C, node, st, buf, ln)
        old = tuple((k, None) for k in st.env if k[0] == 'r' and RC in k[1:])
        return [(('err', frozenset()), 'n', RC, ((('k', RC), fail),) + old),
                (('ok', frozenset()), 'n', RC, ((('k', RC), POS),) + old)]

    def initial(self, eng, C, node, st, buf, ln):
        """The first transfer starts at the data the caller passed, with its whole length."""
        if len(self.root.params) < 2:
            return
        bd, ld = self.root.params[-2]['d'], self.root.params[-1]['d']
        ok = []
        for e, d in ((buf, bd), (ln, ld)):
            x = strip(e)
            if x['k'] == 'bin' and x['op'] in ('+', '-') and eng.val(x['y'], st, C) == ('c', 0):
                x = strip(x['x'])
            v = eng.val(x, st, C)
            ok.append(v == ('s', ('p', 'v%d' % d)) or path_of(x, C.alias) == 'v%d' % d and ('p', 'v%d' % d) not in st.env
                      or v == st.env.get(('p', 'v%d' % d)))
        if not all(ok):
            self.report('does not transfer the bytes the caller passed', node.line)

    def vars(self, e):
        """(variable, sign) pairs of a linear expression."""
        e = strip(e)
        if e is None:
            return []
        if e['k'] == 'bin' and e['op'] in ('+', '-'):
            r = self.vars(e['y'])
            return self.vars(e['x']) + [(v, s if e['op'] == '+' else -s) for v, s in r]
        if e['k'] == 'un' and e['op'] == '&':
            return self.vars(e['e'])
        if e['k'] == 'idx':
            return self.vars(e['b']) + self.vars(e['ix'])
        p = path_of(e)
        return [(p, 1)] if p else []

    def advanced(self, eng, C, st, upd):
        """Both the position and the remaining length reflect the last transfer."""
        b = sum(s * sg for v, s in self.vars(self.buf) for u, sg in upd if u == v)
        n = sum(s * sg for v, s in self.vars(self.ln) for u, sg in upd if u == v)
        return b == 1 and n == -1

    def at_assign(self, eng, C, node, st):
        phase, upd = st.q
        if phase not in ('ok', 'err'):
            return [st]
        e = node.e
        if C.func is not self.root:
            if node.kind == 'asg' and e.get('op') in ('|', '|=') and e['x'].get('n') == 'm_status':
                return [st.with_q((phase, upd | {('S', 0)}))]
            return [st]
        if node.kind == 'asg':
            p = path_of(e['x'], C.alias)
            sign = None
            if e.get('op') in ('+', '-', '+=', '-='):
                if eng.val(e['y'], st, C) == RC:
                    sign = 1 if e['op'][0] == '+' else -1
            elif 'op' not in e:
                y = strip(e['y'])
                if y['k'] == 'bin' and y['op'] in ('+', '-') and path_of(y['x'], C.alias) == p and \
                        eng.val(y['y'], st, C) == RC:
                    sign = 1 if y['op'] == '+' else -1
                elif y['k'] == 'idx' or (y['k'] == 'un' and y['op'] == '&' and strip(y['e'])['k'] == 'idx'):
                    z = y if y['k'] == 'idx' else strip(y['e'])
                    if path_of(z['b'], C.alias) == p and eng.val(z['ix'], st, C) == RC:
                        sign = 1
                elif eng.val(e['y'], st, C) == RC and UNSIGNED.match(e['x'].get('t', '')) and phase == 'err':
                    sign = 1
            if p and sign:
                if phase == 'err':
                    self.report('a failed transfer is used as a byte count', node.line)
                return [st.with_q((phase, upd | {(p, sign)}))]
            if e.get('op') in ('|', '|=') and p and p.endswith('m_status'):
                return [st.with_q((phase, upd | {('S', 0)}))]
        elif node.kind == 'decl' and node.e is not None and phase == 'err':
            if UNSIGNED.match(node.x.get('t', '')) and eng.val(node.e, st, C) == RC:
                self.report('a failed transfer is used as a byte count', node.line)
        return [st]

    def at_return(self, eng, C, node, st, v):
        return [st]

    def bind(self, eng, C, node, st, t):
        out = {}
        for a, p in zip(node.e['a'], t.params):
            if a is not None and eng.val(a, st, C) == RC:
                out[('p', 'v%d' % p['d'])] = RC
                if ('k', RC) in st.env:
                    out[('k', RC)] = st.env[('k', RC)]
        return out


class Done(Xfer):
    """Adds: state of the remaining length when the function is left."""

    def at_exit(self, eng, C, node, st):
        if C.func is self.root and self.void:
            self.exitcheck(eng, C, node, st)

    def branch(self, eng, C, node, st, v):
        return True if C.func is self.root and self.void else None

    def after_branch(self, eng, C, node, st, v, truth):
        if st.q[0] in ('ok', 'start') and self.complete(eng, C, st):
            return st.with_q(('done', frozenset()))
        return st

    def complete(self, eng, C, st):
        """Nothing remains to be written in this state."""
        phase, upd = st.q
        if phase == 'done':
            return True
        if phase == 'start':
            c = eng.cons_of(st.env.get(('p', self.lenp), ('s', ('p', self.lenp))), st)
            return c[1] is not None and c[1] <= 0
        if phase != 'ok':
            return False
        if self.advanced(eng, C, st, upd):
            c = eng.cons_of(eng.val(strip(self.ln), st, C), st)
            if c[1] is not None and c[1] <= 0:
                return True
            x = strip(self.ln)
            return x['k'] == 'bin' and x['op'] == '-' and \
                eng.simp(('b', '<', eng.val(x['y'], st, C), eng.val(x['x'], st, C)), st) == ('c', 0)
        if upd - {('S', 0)}:
            return False
        v = eng.val(strip(self.ln), st, C)
        r = st.env.get(('r', RC, v))
        if r is None and ('r', v, RC) in st.env:
            r = st.env[('r', v, RC)].translate(str.maketrans('<>', '><'))
        return r is not None and '<' not in r

    def exitcheck(self, eng, C, node, st):
        phase, upd = st.q
        line = self.root.d['body'].get('el', self.root.line)
        if phase == 'err':
            self.report('can return normally after a failed write', line)
        elif not self.complete(eng, C, st):
            self.report('can return normally without writing anything' if phase == 'start' else
                        'can return normally although only part of the data was written', line)


RD = {'vmime::utility::inputStream::read', 'vmime::net::socket::receiveRaw'}
WR = {'vmime::utility::outputStream::write': 0, 'vmime::net::socket::sendRaw': 0,
      'vmime::net::imap::IMAPConnection::sendRaw': 0,
      'vmime::utility::stringUtils::appendBytesToString': 1, 'vmime::utility::stringUtils::makeStringFromBytes': 0}


def base(e):
    """Variable a buffer expression designates, when it is the start of that buffer."""
    e = strip(e)
    if e is not None and e['k'] == 'un' and e['op'] == '&' and e['e']['k'] == 'idx' and e['e']['ix'].get('cv') == 0:
        e = e['e']['b']
    return path_of(e) if e is not None and e['k'] in ('ref', 'mem') else None


class Copy(Rule):
    """What is handed on from a buffer is what was last read into it."""
    max_states = 60

    def __init__(self, P, root, bufs):
        self.P, self.root, self.bufs = P, root, bufs
        self.bad = []
        self.n = 0

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        r = is_read(self.P, e)
        if r and base(r[0]) in self.bufs:
            # the value of this call is what the buffer holds
            return [(tuple(sorted(set(st.q) - {x for x in st.q if x[0] == base(r[0])} | {(base(r[0]), e['i'])})), 'n', None),
                    (st.q, 'x', '?')]
        for q, o in WR.items():
            if q in self.P.names(e) and len(e['a']) > o + 1:
                b = base(e['a'][o])
                if b in self.bufs:
                    self.n += 1
                    v = eng.val(e['a'][o + 1], st, C)
                    have = dict(st.q).get(b)
                    if have is None or v != ('s', ('call', C.func.id, have)):
                        self.bad.append((b, node.line))
        return None


def is_read(P, e):
    if P.names(e) & RD:
        return e['a'][0], e['a'][1]
    if e.get('f') in PRIM and PRIM[e['f']][0] == 'r' and len(e['a']) > 2:
        return e['a'][1], e['a'][2]
    return None


def copies(P, ctx):
    n = 0
    for f in P.fn:
        if not f.file.startswith('vmime/'):
            continue
        bufs = {}
        for c in f.calls():
            if c['k'] == 'call':
                r = is_read(P, c)
                b = base(r[0]) if r else None
                if b:
                    bufs[b] = c
        used = set()
        for c in f.calls():
            for q, o in WR.items():
                if q in P.names(c) and len(c['a']) > o + 1 and base(c['a'][o]) in bufs:
                    used.add(base(c['a'][o]))
        if not used:
            continue
        rule = Copy(P, f, used)
        eng = Engine(P, rule, ctx.fx)
        eng.run(f, (), {})
        ctx.absorb(eng)
        n += len(used)
        ctx.ob('what is handed on is what was read', ctx.at(f), not rule.bad)
        for b, line in dict.fromkeys(rule.bad):
            ctx.violation('copy:%s' % f.q, '%s hands on a number of bytes that is not the number it has just read into the '
                          'buffer' % f.q, f.file, line, None, f.q)
    ctx.need('buffers read and handed on', n, 8)


class Wrapped(Rule):
    """Socket layered on another one: results of the inner transfer and their arguments."""
    max_states = 60

    def __init__(self, P, root):
        self.P, self.root = P, root

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        n = self.P.names(e)
        ps = self.root.params
        own = all(eng.val(a, st, C) == ('s', ('p', 'v%d' % p['d'])) for a, p in zip(e['a'], ps)) and len(e['a']) == len(ps)
        if SOCK + 'sendRawNonBlocking' in n:
            return [('part' if own else 'other', 'n', RC), (st.q, 'x', '?')]
        if SOCK + 'sendRaw' in n:
            return [('all' if own else 'other', 'n', None), (st.q, 'x', '?')]
        return None


def nonblocking(P, ctx):
    n = 0
    for f in P.fn:
        if SOCK + 'sendRawNonBlocking' not in P.roots(f.id) or any(prim(c) for c in f.calls()):
            continue
        n += 1
        rule = Wrapped(P, f)
        eng = Engine(P, rule, ctx.fx)
        ok = True
        lp = ('s', ('p', 'v%d' % f.params[-1]['d']))
        for kind, exc, rv, q, _ in eng.run(f, 'start', {}):
            if kind != 'n' or rv == ('c', 0):
                continue
            if q == 'part' and rv == RC:
                continue
            if q == 'all' and rv in (lp, ('u',)):
                # returns the length parameter: checked on the return expressions
                if all(path_of(strip(r['e'])) in (lp[1][1],) or r['e'].get('cv') == 0 for r in f.nodes('ret')):
                    continue
            ok = False
        ctx.absorb(eng)
        ctx.ob('non-blocking write reports bytes of the caller', ctx.at(f), ok)
        if not ok:
            ctx.violation('nb:%s' % f.q, '%s returns a number that does not count bytes of the buffer it was given' % f.q,
                          f.file, f.line, None, f.q)
    ctx.need('layered non-blocking writes', n, 1)


def linear(e):
    """{variable: coefficient} of a sum/difference, None when it is something else."""
    e = strip(e)
    if e is None:
        return None
    if e.get('cv') is not None:
        return {1: e['cv']} if e['cv'] else {}
    if e['k'] == 'bin' and e['op'] in ('+', '-'):
        a, b = linear(e['x']), linear(e['y'])
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if e['op'] == '+' else -v)
        return {k: v for k, v in out.items() if v}
    p = path_of(e)
    return {p: 1} if p else None


def leftovers(P, ctx):
    """Decoded bytes kept for the next read: position + remaining length = length of the kept buffer."""
    n = 0
    for f in P.fn:
        if SOCK + 'receiveRaw' not in P.roots(f.id):
            continue
        # buffer and its length as filled in by one call
        lens = {}
        for c in f.calls():
            outs = [path_of(a['e']) for a in c['a'] if a is not None and a['k'] == 'un' and a['op'] == '&']
            if c['k'] == 'call' and len(outs) == 2 and all(outs):
                lens[outs[0]] = outs[1]
        keep, sizes = None, {}
        for a in f.nodes('asg'):
            p = path_of(a['x'])
            if p is None or not p.startswith('this.'):
                continue
            if 'op' in a:
                sizes.setdefault(p, []).append((a['op'][0], linear(a['y']), a['l']))
            elif path_of(a['y']) in lens:
                keep = (p, lens[path_of(a['y'])], a['l'])
            else:
                x = linear(a['y'])
                if x:
                    sizes.setdefault(p, []).append(('=', x, a['l']))
        if keep is None:
            continue
        n += 1
        init = [v[1] for l in sizes.values() for v in l if v[0] == '=']
        tot = {}
        for x in init:
            for k, v in x.items():
                tot[k] = tot.get(k, 0) + v
        tot = {k: v for k, v in tot.items() if v}
        ok = len(init) == 2 and tot == {keep[1]: 1}
        up = [v[1] for l in sizes.values() for v in l if v[0] == '+']
        dn = [v[1] for l in sizes.values() for v in l if v[0] == '-']
        ok2 = len(up) == len(dn) == 1 and up == dn
        ctx.ob('kept bytes: position + length = size of the buffer', ctx.at(f, keep[2]), ok)
        ctx.ob('kept bytes: position and length move together', ctx.at(f), ok2)
        if not ok:
            ctx.violation('leftover:%s' % f.q, '%s keeps decoded bytes with a position and a remaining length that do not '
                          'add up to the length of the buffer' % f.q, f.file, keep[2], None, f.q)
        if not ok2:
            ctx.violation('leftovermove:%s' % f.q, '%s does not move position and remaining length of the kept bytes by the '
                          'same amount' % f.q, f.file, f.line, None, f.q)


def check(P, ctx):
    ctx.rule('At every transfer primitive (recv, send, read, write, SSL_read, SSL_write, gnutls_record_recv, '
             'gnutls_record_send) both outcomes are followed path-sensitively: after a failure no path may use the '
             'result as a byte count, return it, or (for whole-buffer writers) return normally, and a reader that '
             'returns 0 has raised its would-block status; after a transfer of n bytes the position advances by n, '
             'the remaining length decreases by n, and a whole-buffer writer returns only when nothing remains.')
    nr = noreturn(P)
    ctx.counts['functions that never return'] = len(nr)
    n = {'r': 0, 'w': 0}
    for f in P.fn:
        ps = [(c, prim(c)) for c in f.calls() if prim(c)]
        if not ps:
            continue
        roots = P.roots(f.id)
        rule = Done(P, f, prim, nr, ctx)
        rule.void = f.d.get('rt') == 'void' and any(p[0] == 'w' for _c, p in ps)
        eng = Engine(P, rule, ctx.fx)
        outs = eng.run(f, ('start', frozenset()), {})
        ctx.absorb(eng)
        for _c, p in ps:
            n[p[0]] += 1
        sock = any(r.startswith(SOCK) for r in roots)
        if f.d.get('rt') != 'void' and not any(r.endswith('::skip') for r in roots):
            for kind, exc, rv, q, _ in outs:
                if kind != 'n':
                    continue
                phase, upd = q
                if phase == 'err':
                    if rv is None or rv != ('c', 0):
                        rule.report('returns a failed transfer as a byte count', f.line)
                    elif sock and ('S', 0) not in upd:
                        rule.report('returns 0 after a failed transfer without reporting "would block"', f.line)
                    elif not sock:
                        rule.report('reports a failed transfer as end of data', f.line)
                elif phase == 'ok' and rv != RC:
                    rule.report('does not return the number of bytes transferred', f.line)
        for what, line in dict.fromkeys(rule.bad):
            ctx.violation('xfer:%s:%s' % (f.q, what[:40]), '%s %s' % (f.q, what), f.file, line, None, f.q)
        ctx.ob('transfer accounted for', ctx.at(f), not rule.bad)
    ctx.need('read primitives', n['r'], 3)
    ctx.need('write primitives', n['w'], 4)
    copies(P, ctx)
    nonblocking(P, ctx)
    leftovers(P, ctx)
