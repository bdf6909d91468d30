"""A failed server reply is never treated as success."""
from ..engine import Engine, Rule, State, transparent, path_of
from ..program import walk
from ..assume import Checker, const

BAD = ('s', ('G', 'failed reply'))
NONNULL = (None, None, frozenset([0]))
PRIM = {'vmime::net::smtp::SMTPResponse::readResponse': 'smtp',
        'vmime::net::pop3::POP3Response::readResponse': 'pop3',
        'vmime::net::pop3::POP3Response::readMultilineResponse': 'pop3',
        'vmime::net::imap::IMAPParser::readResponse': 'imap',
        'vmime::net::imap::IMAPParser::readGreeting': 'imap'}
PARSER = ('vmime/net/imap/IMAPParser.hpp', 'vmime/net/smtp/SMTPResponse.cpp', 'vmime/net/pop3/POP3Response.cpp')

# Replies whose failure is deliberately not an error, with the reason.
BEST_EFFORT = {
    'vmime::net::imap::IMAPConnection::fetchCapabilities': 'capability list is optional; without it no extension is used',
    'vmime::net::pop3::POP3Connection::fetchCapabilities': 'CAPA is an optional command',
    'vmime::net::pop3::POP3Connection::internalDisconnect': 'the connection is closed whatever the reply to QUIT is',
    'vmime::net::imap::IMAPFolder::testExistAndGetType': 'a failed LIST means that the folder does not exist',
    'vmime::net::pop3::POP3Folder::fetchMessages': 'the attribute stays unfetched and its getter throws',
    'vmime::net::pop3::POP3Folder::fetchMessage': 'the attribute stays unfetched and its getter throws',
}
# A failure may be followed by another attempt here; without a later reply the call must fail.
FALLBACK = {
    'vmime::net::smtp::SMTPConnection::helo': 'EHLO, then HELO',
    'vmime::net::pop3::POP3Connection::authenticate': 'SASL or APOP, then USER/PASS',
    'vmime::net::imap::IMAPConnection::authenticate': 'SASL, then LOGIN',
    'vmime::net::smtp::SMTPConnection::connect': 'optional STARTTLS, then EHLO',
    'vmime::net::pop3::POP3Connection::connect': 'optional STLS, then authentication',
    'vmime::net::imap::IMAPConnection::connect': 'optional STARTTLS, then authentication',
}


class Reply(Rule):
    """Calls in `sites` return a failed reply (or the given values); queries on it answer accordingly."""
    interfacts = False

    def __init__(self, P, sites, value, mode, codes, prims, throwers=None):
        self.P, self.sites, self.value, self.mode, self.codes = P, sites, value, mode, codes
        self.throwers = throwers or {}
        self.seen = False
        self.prims = prims

    def direct(self, eng, f):
        for c in f.calls():
            if (f.id, c['i']) in self.sites or self.query(c) or c.get('id') in self.throwers \
                    or c.get('id') in self.prims:
                return True
        return any(n['n'] == 'status' for n in f.nodes('mem'))

    def may_enter(self, eng, f):
        return f.file.startswith('vmime/net/')

    def query(self, e):
        f = e.get('f', '')
        if f.endswith('SMTPResponse::getCode'):
            return 'code'
        if f.endswith('POP3Response::isSuccess'):
            return 'success'
        if f.endswith('POP3Response::getCode'):
            return 'pcode'
        if f.endswith('::isBad') and 'IMAPParser' in f:
            return 'isbad'
        return None

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        if (C.func.id, e['i']) in self.sites:
            self.seen = True
            v = self.value
            if v == BAD:
                return [('bad', 'n', v, ((('k', BAD), NONNULL),))]
            return [('bad', 'n', v)]
        if st.q == 'bad' and e.get('id') in self.prims and not (e.get('id') in self.throwers and depth == 0):
            return [('later', 'd', None)] if self.P.funcs.get(e['id']) else [('later', 'n', None), ('later', 'x', '?')]
        if e.get('id') in self.throwers and depth == 0:
            self.seen = True
            return [('bad', 'x', t) for t in sorted(self.throwers[e['id']])]
        w = self.query(e)
        if w and e.get('o') is not None:
            if eng.val(e['o'], st, C) == BAD:
                if w == 'code':
                    return [(st.q, 'n', ('k', (400, 599, frozenset())))]
                if w == 'success':
                    return [(st.q, 'n', ('c', 0))]
                if w == 'pcode':
                    return [(st.q, 'n', ('c', self.codes['pop3err']))]
                if w == 'isbad':
                    return [(st.q, 'n', ('c', 1 if self.mode == 'bad' else 0))]
            return [(st.q, 'n', None)]
        return None

    def memval(self, eng, C, e, st):
        if e['n'] == 'status' and e.get('q', '').endswith('resp_cond_state::status'):
            b = e['b']
            while b is not None:
                if b['k'] in ('mem',):
                    b2 = b['b']
                elif b['k'] == 'call' and transparent(b):
                    b2 = b['o']
                else:
                    b2 = None
                if eng.val(b, st, C) == BAD:
                    return ('c', self.codes['imapno'])
                b = b2
        if e['n'] == 'resp_cond_bye':
            if eng.val(e['b'], st, C) == BAD:
                return ('nn', 'bye')
        if e['n'] == 'continue_req' and st.q == 'bad':
            return ('c', 0)
        return None

    def bind(self, eng, C, node, st, t):
        out = {}
        for a, p in zip(node.e['a'], t.params):
            if eng.val(a, st, C) == BAD:
                out[('p', 'v%d' % p['d'])] = BAD
                out[('k', BAD)] = NONNULL
        return out


def check(P, ctx):
    ctx.rule('For every place where a reply of an SMTP, POP3 or IMAP server is read, the function is analysed '
             'path-sensitively under the assumption that this reply reports a failure (SMTP 4xx/5xx, POP3 -ERR, IMAP '
             'BAD and, separately, NO): after the reply no path may return normally. A function that hands the reply '
             '(or a failure indication) back passes the obligation on to each of its callers; an exception raised for '
             'the reply must not be swallowed by a caller.')
    ctx.assumptions += ['best-effort replies: %s (%s)' % (k, v) for k, v in sorted(BEST_EFFORT.items())]
    codes = {'pop3err': P.enum_value('vmime::net::pop3::POP3Response::ResponseCode', 'CODE_ERR'),
             'imapno': P.enum_value('vmime::net::imap::IMAPParser::resp_cond_state::Status', 'NO')}
    callers = {}
    for f in P.fn:
        for c in f.calls():
            if not c.get('id'):
                continue
            for t in P.targets(c) or ():
                callers.setdefault(t.id, {}).setdefault(f, []).append(c)
    prims = []
    for q, proto in PRIM.items():
        for f in P.byq.get(q, []):
            prims.append((f, proto, frozenset([BAD])))
    primids = {f.id for f, _p, _v in prims}
    nsites = {'smtp': 0, 'pop3': 0, 'imap': 0}
    done = set()
    fails = {}          # function -> exception types raised for a failed reply
    rels = {}
    while prims:
        prim, proto, values = prims.pop()
        for f, cs in sorted(callers.get(prim.id, {}).items(), key=lambda x: (x[0].q, x[0].line)):
            if f.file in PARSER:
                continue
            for c in cs:
                for value in values:
                    key = (f, c['i'], value)
                    if key in done:
                        continue
                    done.add(key)
                    nsites[proto] += 1
                    modes = ('bad', 'no') if proto == 'imap' else ('bad',)
                    back = set()
                    ok = True
                    for mode in modes:
                        rule = Reply(P, {(f.id, c['i'])}, value, mode, codes, primids)
                        eng = Engine(P, rule, ctx.fx)
                        outs = eng.run(f, 'start', {})
                        ctx.absorb(eng)
                        for kind, exc, rv, q, _ in outs:
                            if q not in ('bad', 'later'):
                                continue
                            if kind == 'n' and q == 'later' and f.q in FALLBACK:
                                continue
                            if kind == 'x':
                                fails.setdefault(f, set()).add(exc or '?')
                                continue
                            if f.q in BEST_EFFORT:
                                ctx.ob('best-effort reply (%s)' % BEST_EFFORT[f.q], ctx.at(f, c['l']))
                                continue
                            if rv is not None and (rv == BAD or rv[0] == 'c') and callers.get(f.id):
                                back.add(rv)
                                continue
                            ok = False
                            n = cs.index(c)
                            ctx.violation('reply:%s#%d' % (f.q, n),
                                          '%s can return normally although the reply read at line %d reports a failure (%s)'
                                          % (f.q, c['l'], mode), f.file, c['l'], None, f.q)
                    ctx.ob('failed %s reply ends in an exception' % proto.upper(), ctx.at(f, c['l']), ok)
                    if back:
                        primids.add(f.id)
                        prims.append((f, proto, frozenset(back)))
    ctx.need('SMTP reply sites', nsites['smtp'], 7)
    ctx.need('POP3 reply sites', nsites['pop3'], 9)
    ctx.need('IMAP reply sites', nsites['imap'], 15)
    large = P.byq.get('vmime::net::pop3::POP3Response::readLargeResponse', [])
    ctx.need('POP3 large reply reader', len(large), 1)

    def code(P_, e, where):
        if e.get('f', '').endswith('POP3Response::getResponseCode'):
            return const(codes['pop3err'])
        return None
    ck = Checker(P, ctx.fx, ctx, callval=code)
    for f in large:
        _h, outs = ck.run(f)
        ok = not any(o[0] == 'n' for o in outs)
        ctx.ob('failed POP3 reply to a large command ends in an exception', ctx.at(f), ok)
        fails.setdefault(f, set()).update(o[1] or '?' for o in outs if o[0] == 'x')
        if not ok:
            ctx.violation('reply:%s' % f.q, '%s can return normally although the server reported a failure' % f.q,
                          f.file, f.line, None, f.q)
    pending(P, ctx, callers, primids)
    swallow(P, ctx, callers, fails, codes, primids)


def swallow(P, ctx, callers, fails, codes, primids):
    """Exceptions raised for failed replies are not lost on the way to the application."""
    work = sorted(fails, key=lambda f: f.q)
    done = set()
    while work:
        f = work.pop()
        types = {t for t in fails[f]}
        for g, cs in sorted(callers.get(f.id, {}).items(), key=lambda x: (x[0].q, x[0].line)):
            key = (f, g, frozenset(types))
            if key in done:
                continue
            done.add(key)
            if g.kind == 'dtor' or not g.file.startswith('vmime/net/'):
                continue
            new = set(types)
            if any(True for s in walk(g.d['body']) if s.get('k') == 'try'):
                rule = Reply(P, set(), BAD, 'bad', codes, primids, throwers={f.id: types})
                eng = Engine(P, rule, ctx.fx)
                rule.exc_types = True
                outs = eng.run(g, 'start', {})
                ctx.absorb(eng)
                new = set()
                bad = False
                for kind, exc, rv, q, _ in outs:
                    if q == 'later' and kind == 'n' and g.q in FALLBACK:
                        continue
                    if q in ('bad', 'later') and kind == 'x':
                        new.add(exc or '?')
                    elif q in ('bad', 'later') and kind == 'n':
                        bad = True
                ok = not bad or g.q in BEST_EFFORT
                ctx.ob('failure reported by %s is passed on' % f.name, ctx.at(g), ok)
                if not ok:
                    ctx.violation('swallowed:%s<-%s' % (g.q, f.q),
                                  '%s can return normally although %s failed on a server reply' % (g.q, f.q),
                                  g.file, g.line, None, g.q)
            old = fails.get(g, set())
            if not new <= old:
                fails[g] = old | new
                work.append(g)


class Pending(Rule):
    """A command that has been sent has its reply read before the function returns normally."""

    def __init__(self, senders, readers):
        self.senders, self.readers = senders, readers

    def direct(self, eng, f):
        return any(c.get('id') in self.senders or c.get('id') in self.readers for c in f.calls())

    def may_enter(self, eng, f):
        return f.file.startswith('vmime/net/') and f.kind != 'dtor'

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        if e.get('id') in self.readers:
            return [('read', 'n', None), ('read', 'x', '?')]
        if e.get('id') in self.senders:
            return [('sent', 'n', None), (st.q, 'x', '?')]
        if eng.P.names(e) & LEAVE:
            return [(st.q, 'n', None), (st.q, 'x', '?')]
        return None


LEAVE = {'vmime::net::imap::IMAPConnection::disconnect', 'vmime::net::imap::IMAPConnection::internalDisconnect'}
# commands after which the connection is dropped, whatever the reply
NO_REPLY = {'vmime::net::imap::IMAPConnection::internalDisconnect': 'LOGOUT: the connection is closed right after it'}


def pending(P, ctx, callers, readers):
    ctx.rule('On every path of a function that sends an IMAP or POP3 command and returns normally, a reply is read after '
             'the last command; a function that leaves that to its callers passes the obligation on to them.')
    senders = {f.id for q in ('vmime::net::imap::IMAPCommand::send', 'vmime::net::pop3::POP3Command::send')
               for f in P.byq.get(q, [])}
    readers = set(readers) | {f.id for f in P.byq.get('vmime::net::pop3::POP3Response::readLargeResponse', [])} | \
        {f.id for f in P.byq.get('vmime::net::imap::IMAPConnection::readResponse', [])}
    work = sorted({f for s in senders for f in callers.get(s, {})}, key=lambda f: (f.q, f.line))
    ctx.need('functions sending IMAP or POP3 commands', len(work), 15)
    done = set()
    eng = None
    skip = set(senders)
    while work:
        f = work.pop(0)
        if f in done or f.kind == 'dtor' or f.id in skip:
            continue
        done.add(f)
        r = Pending(senders, readers)
        e2 = Engine(P, r, ctx.fx)
        if eng is not None:
            e2.rel = eng.rel
        eng = e2
        outs = e2.run(f, 'start', {})
        ctx.absorb(e2)
        pend = any(o[0] == 'n' and o[3] == 'sent' for o in outs)
        if f.q in NO_REPLY:
            continue
        up = callers.get(f.id)
        if any(P.decl.get(o) is not None for o in f.d.get('ov', [])):
            up = None           # implements an operation of the public interface
        ok = not pend or bool(up)
        ctx.ob('every command has its reply read', ctx.at(f), ok)
        if pend and up:
            work += [g for g in up if g.file.startswith('vmime/net/')]
        elif pend:
            ctx.violation('unread:%s' % f.q, '%s returns normally without reading the reply of a command it has sent' % f.q,
                          f.file, f.line, None, f.q)
