"""Replies stay matched with commands: what is sent, what is read, and message data in its frame."""
from ..engine import Engine, path_of, transparent
from ..mustpass import MustPass, G, nonnull
from ..program import walk
from .C06 import PRIM

V = 'vmime::'
U = V + 'utility::'
SM, PO, IM = V + 'net::smtp::', V + 'net::pop3::', V + 'net::imap::'
BAD, OK = G('failed reply'), G('good reply')
PIPE, SINGLE = G('pipelined commands'), G('commands one by one')
ROOTS = ('vmime/net/imap/', 'vmime/net/pop3/', 'vmime/net/smtp/')
CHUNK = SM + 'SMTPChunkingOutputStreamAdapter'
SOCKET = {V + 'net::socket::send', V + 'net::socket::sendRaw', IM + 'IMAPConnection::sendRaw', IM + 'IMAPConnection::send'}
CLASSES = {SM + 'SMTPTransport', SM + 'SMTPConnection', PO + 'POP3Store', PO + 'POP3Connection', PO + 'POP3Folder', PO + 'POP3Message',
           IM + 'IMAPStore', IM + 'IMAPConnection', IM + 'IMAPFolder', IM + 'IMAPMessage'}
LINES = {PO + 'POP3Response::readMultilineResponse', PO + 'POP3Response::readLargeResponse'}
CLOSE = {c + '::' + n for c in (SM + 'SMTPConnection', SM + 'SMTPTransport', PO + 'POP3Connection', PO + 'POP3Store', IM + 'IMAPConnection',
                                IM + 'IMAPStore') for n in ('disconnect', 'internalDisconnect', 'abort')}
CONNECTED = {c + '::isConnected' for c in (SM + 'SMTPConnection', SM + 'SMTPTransport', PO + 'POP3Connection', PO + 'POP3Store',
                                           IM + 'IMAPConnection', IM + 'IMAPStore')}


def crlf(e, local, depth=0):
    """Whether what is sent ends a line."""
    for y in walk(e):
        if y.get('k') == 'str' and y.get('s', '').endswith('\r\n'):
            return True
        if y.get('k') == 'ref' and y.get('dk') == 'local' and y.get('d') in local and depth < 4:
            i = local[y['d']].get('init')
            if i is not None and crlf(i, local, depth + 1):
                return True
    return False


def strips(e):
    while e is not None and (e['k'] == 'cast' or (e['k'] == 'ctor' and len(e['a']) == 1)):
        e = e['e'] if e['k'] == 'cast' else e['a'][0]
    return e


class Pairing(MustPass):
    exc_types = True
    interfacts = True
    count = False

    def __init__(self, P, ctx, codes):
        MustPass.__init__(self, self.marked)
        self.P, self.ctx, self.codes = P, ctx, codes
        self.bad = {}
        self.n = {}
        self.locals = {}

    def may_enter(self, eng, f):
        return f.file.startswith(ROOTS) and not f.file.endswith(('IMAPParser.hpp', 'Response.cpp', 'SMTPCommandSet.cpp', 'AuthenticationResponder.cpp')) and \
            f.cls != CHUNK

    def direct(self, eng, f):
        return f.file.startswith(ROOTS) and any(self.op(c) for c in f.calls())

    def local(self, f):
        if f.id not in self.locals:
            self.locals[f.id] = {v['d']: v for d in f.nodes('decl') for v in d['v'] if v.get('d') is not None}
        return self.locals[f.id]

    def op(self, e):
        if e['k'] != 'call':
            return None
        f = e.get('f', '')
        ns = self.P.names(e) | {f}
        if f in PRIM:
            return 'greeting' if f.endswith('::readGreeting') else 'reply'
        if f == PO + 'POP3Response::readLargeResponse':
            return 'large'
        if f in (SM + 'SMTPCommand::writeToSocket', SM + 'SMTPCommandSet::writeToSocket'):
            return 'set' if 'SMTPCommandSet' in e.get('ot', '') else 'cmd'
        if f in (PO + 'POP3Command::send', IM + 'IMAPCommand::send'):
            return 'cmd'
        if ns & SOCKET and not e.get('f', '').startswith('std::'):
            return 'raw'
        if f == SM + 'SMTPCommandSet::create':
            return 'create'
        if f == SM + 'SMTPCommandSet::addCommand':
            return 'add'
        if f == SM + 'SMTPCommandSet::isFinished':
            return 'finished'
        if ns & {V + 'net::socket::connect'}:
            return 'connect'
        if ns & {V + 'net::socket::disconnect'}:
            return 'close'
        if f in CLOSE:
            return 'closing'
        if f in CONNECTED:
            return 'connected'
        if f == U + 'bufferedStreamCopy':
            return 'copy'
        if ns & {U + 'inputStream::read'} and 'Socket' not in e.get('ot', ''):
            return 'input'
        if f.endswith('::generate') and len(e['a']) == 2 and e['a'][1] is not None and CHUNK in self.typ(e['a'][1]):
            return 'generate'
        if f in (CHUNK + '::flush', U + 'outputStream::flush') and CHUNK in e.get('ot', ''):
            return 'last'
        if ns & {U + 'outputStream::flush'} and 'dotFilteredOutputStream' in e.get('ot', ''):
            return 'flush'
        if any(x.startswith((V + 'net::tracer::', U + 'progressListener::')) for x in ns):
            return 'quiet'
        if f.endswith('POP3Response::isSuccess'):
            return 'success'
        if f.endswith('::isBad') and 'IMAPParser' in f:
            return 'isbad'
        if f.endswith('SMTPResponse::getCode'):
            return 'code'
        return None

    def typ(self, e):
        e = strips(e)
        return e.get('t', '')

    def report(self, key, msg, eng, C, node):
        self.bad.setdefault(key + ':' + C.func.q, ('%s %s' % (C.func.q, msg), C.func, node.line, eng.trace()))

    def closing(self, st):
        return any(t.startswith('closing ') for t in st.q)

    def send(self, eng, C, node, st):
        """One command, or one line in reply to a challenge."""
        if not self.closing(st) and 'lost' not in st.q:
            if 'await' in st.q:
                self.report('early', 'sends a command before the reply to the last one was read', eng, C, node)
            elif 'data' in st.q and 'unflushed' in st.q:
                self.report('unflushed', 'ends the message before the filter was flushed', eng, C, node)
        c = self.command(C.func, node.e)
        return [(('await', 'lines') if c else ('await',), ('data', 'unflushed', 'set') + (() if c else ('lines',)), 'n', None),
                (('lost',), (), 'x', V + 'exceptions::socket_exception')]

    def command(self, f, e):
        """Whether this is a POP3 command whose reply is a list."""
        if e.get('f') != PO + 'POP3Command::send':
            return False
        o = e['o']
        for _i in range(4):
            for y in walk(o):
                n = y.get('f', '') if y['k'] == 'call' else ''
                if n.startswith(PO + 'POP3Command::'):
                    self.n['POP3 commands recognised'] = self.n.get('POP3 commands recognised', 0) + 1
                    n = n.rsplit('::', 1)[-1]
                    return n in ('CAPA', 'RETR', 'TOP') or n in ('LIST', 'UIDL') and not y['a']
            v = next((self.local(f)[y['d']] for y in walk(o) if y['k'] == 'ref' and y.get('d') in self.local(f)), None)
            if v is None or v.get('init') is None:
                return False
            o = v['init']
        return False

    def marked(self, P, e, where):
        k = self.op(e)
        if where is None:
            return k is not None
        if k is None:
            return None
        eng, C, node, st = where
        f = C.func
        self.n[k] = self.n.get(k, 0) + 1
        o = eng.val(e['o'], st, C) if e.get('o') is not None else None
        if k == 'cmd':
            if 'data' in st.q and not self.closing(st):
                self.report('middle', 'sends a command in the middle of message data', eng, C, node)
            return self.send(eng, C, node, st)
        if k == 'raw':
            if f.cls == IM + 'IMAPConnection' and e['f'].startswith(IM):
                return None
            if crlf(e['a'][0], self.local(f)):
                return self.send(eng, C, node, st)
            if f.q.startswith(IM + 'IMAPConnection::sendRaw'):
                return self.send(eng, C, node, st)
            if 'await' in st.q and 'lost' not in st.q:
                self.report('early', 'sends data before the reply to the last command was read', eng, C, node)
            if 'refused' in st.q:
                self.report('refused', 'sends message data after the command was refused', eng, C, node)
            return [(('data',), (), 'n', None), (('data', 'lost'), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'create':
            a = strips(e['a'][0]) if e['a'] else None
            ev = [(), ()]
            if a is not None and a['k'] == 'ref' and a.get('d') is not None and a.get('dk') == 'local':
                key = ('p', 'v%d' % a['d'])
                ev = [((key, ('c', 1)),), ((key, ('c', 0)),)]
            v = eng.val(e['a'][0], st, C) if e['a'] else None
            r = []
            if v != ('c', 0):
                r.append(((), (), 'n', PIPE, (nonnull(PIPE),) + ev[0]))
            if v is None or v[0] != 'c' or v == ('c', 0):
                r.append(((), (), 'n', SINGLE, (nonnull(SINGLE),) + ev[1]))
            return r
        if k == 'set':
            if 'await' in st.q:
                self.report('early', 'sends a command before the reply to the last one was read', eng, C, node)
            if o == SINGLE:
                return [(('await',), (), 'n', None), (('lost',), (), 'x', V + 'exceptions::socket_exception')]
            more = self.more(C, node)
            return [(('await', 'set') if more else ('await',), () if more else ('set',), 'n', None),
                    (('lost',), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'finished':
            if o == PIPE:
                return [((), ('set',), 'n', ('c', 1)), ((), (), 'n', ('c', 0))]
            return None
        if k == 'quiet':
            return [((), (), 'n', None)]
        if k == 'connect':
            return [(('await',), ('lost', 'closed', 'data', 'set'), 'n', None), (('lost',), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'close':
            return [(('closed',), ('await', 'data', 'set', 'unflushed'), 'n', None)]
        if k == 'connected':
            # with no connection, there is nothing to keep in step
            return [((), (), 'n', ('c', 1)), (('lost',), (), 'n', ('c', 0))]
        if k == 'closing':
            return [(('closing ' + e['f'],), (), 'd', None)]
        if k in ('reply', 'greeting', 'large'):
            if e['f'].startswith(PO) and not self.closing(st) and ('lines' in st.q) != (e['f'] in LINES):
                self.report('lines', 'reads a reply of one line where there are more' if 'lines' in st.q else
                            'waits for the end of a list where the reply is one line', eng, C, node)
            if 'await' not in st.q and not self.closing(st) and f.cls != CHUNK:
                self.report('idle', 'waits for a reply that no command asks for', eng, C, node)
            if k == 'large':
                return [((), ('await',), 'n', None), ((), ('await',), 'x', V + 'exceptions::command_error'),
                        (('lost',), (), 'x', V + 'exceptions::socket_exception')]
            return [((), ('await', 'refused'), 'n', OK, (nonnull(OK),)), (('refused',), ('await',), 'n', BAD, (nonnull(BAD),)),
                    (('lost',), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'success':
            return [((), (), 'n', ('c', 1 if o == OK else 0))] if o in (OK, BAD) else None
        if k == 'isbad':
            if o == OK:
                return [((), (), 'n', ('c', 0))]
            if o == BAD:
                return [((), (), 'n', ('c', 0)), ((), (), 'n', ('c', 1))]
            return None
        if k == 'code':
            return None
        if k == 'add':
            return [(('DATA',), (), 'n', None)] if any(y['k'] == 'call' and y.get('f') == SM + 'SMTPCommand::DATA' for y in walk(e)) else None
        if k == 'copy':
            if not f.file.startswith('vmime/net/smtp/'):
                return None
            t = self.typ(e['a'][1])
            if 'dotFilteredOutputStream' not in t and f.cls != CHUNK:
                self.report('unfiltered', 'sends message data that does not go through the dot filter', eng, C, node)
            if 'DATA' not in st.q and f.cls != CHUNK:
                self.report('unannounced', 'sends message data without a DATA command', eng, C, node)
            return [(('data', 'unflushed'), (), 'n', None), (('data',), (), 'x', 'std::exception'),
                    (('data', 'lost'), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'flush':
            return [((), ('unflushed',), 'n', None), (('data', 'lost'), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'input':
            return [((), (), 'n', None), ((), (), 'x', 'std::exception')]
        if k == 'generate':
            # replies to chunks may be outstanding
            return [(('chunks',), (), 'n', None), (('set',), (), 'x', 'std::exception'),
                    (('lost',), (), 'x', V + 'exceptions::socket_exception')]
        if k == 'last':
            return [((), ('chunks', 'set'), 'n', None), (('closed',), ('chunks', 'set'), 'x', V + 'exceptions::command_error'),
                    (('lost',), (), 'x', V + 'exceptions::socket_exception')]
        return None

    def more(self, C, node):
        """Whether commands of the set may follow this one."""
        nodes = C.nodes
        seen, todo = set(), [d for _l, d in node.succ]
        while todo:
            n = nodes[todo.pop()]
            if n.i in seen:
                continue
            seen.add(n.i)
            if n.kind == 'call' and n.e is not None and n.e['k'] == 'call' and self.op(n.e) == 'set':
                return True
            todo += [d for _l, d in n.succ]
        return False

    def map_back(self, eng, C, node, t, q):
        if t.q in CLOSE:
            return (q - {'closing ' + t.q, 'await', 'data', 'set', 'unflushed'}) | {'closed'}
        return q

    def memval(self, eng, C, e, st):
        if e['n'] == 'continue_req' and 'refused' in st.q:
            return ('c', 0)
        if e['n'] == 'status' and e.get('q', '').endswith('resp_cond_state::status'):
            b = e['b']
            while b is not None:
                v = eng.val(b, st, C)
                if v == BAD:
                    return ('c', self.codes['no'])
                if v == OK:
                    return ('c', self.codes['ok'])
                b = b['b'] if b['k'] == 'mem' else b['o'] if b['k'] == 'call' and transparent(b) else None
        return None


def check(P, ctx):
    ctx.rule('Every public operation of the SMTP, POP3 and IMAP classes that sends something is followed path-sensitively, '
             'callees and exception handlers included, with the commands sent, the replies read and the message data begun and '
             'ended. A command is sent when the reply to the last one has been read, a reply is awaited when a command asks for '
             'it, SMTP message data goes through the dot filter, which is flushed before the end is marked; and the operation '
             'returns, or fails, with every reply read and all message data ended, or with the connection closed.')
    ctx.assumptions += ['a connection on which sending or receiving fails, or that could not be established, is not used again',
                        'tracers and progress listeners do not throw; the replies to BDAT commands are counted by the chunking adapter',
                        'a set of SMTP commands holds one command for each writeToSocket()']
    codes = {'no': P.enum_value(IM + 'IMAPParser::resp_cond_state::Status', 'NO'),
             'ok': P.enum_value(IM + 'IMAPParser::resp_cond_state::Status', 'OK')}
    rel, roots, n, seen = None, 0, {}, {}
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if f.cls not in CLASSES or f.d.get('body') is None or f.d.get('acc') != 'public' or f.kind in ('ctor', 'dtor'):
            continue
        r = Pairing(P, ctx, codes)
        eng = Engine(P, r, ctx.fx)
        if rel is not None:
            eng.rel = rel
        if not eng.relevant(f):
            rel = eng.rel
            continue
        # these are pieces of an exchange
        if f.q in (SM + 'SMTPConnection::sendRequest', SM + 'SMTPConnection::readResponse', IM + 'IMAPConnection::sendCommand',
                   IM + 'IMAPConnection::sendRaw', IM + 'IMAPConnection::readResponse'):
            continue
        roots += 1
        closing = f.q in CLOSE
        outs = eng.run(f, frozenset(['closing ' + f.q] if closing else []), {})
        rel = eng.rel
        ctx.absorb(eng)
        opening = f.q.rsplit('::', 1)[-1] in ('connect', 'open')
        for kind, exc, rv, q, of in outs:
            # a connection that could not be made is not used
            if opening and kind == 'x':
                continue
            if closing or 'lost' in q:
                continue
            if kind == 'n' and ('await' in q or 'data' in q):
                r.bad.setdefault('unread:' + f.q, ('%s can return before the reply to its command was read' % f.q, f, f.line, None))
            if kind == 'x' and ('await' in q or 'set' in q) and 'closed' not in q:
                r.bad.setdefault('left:' + f.q, ('%s can fail with replies that are still to be read (%s)' % (f.q, exc), f, f.line, None))
            if kind == 'x' and 'data' in q and 'closed' not in q:
                r.bad.setdefault('half:' + f.q, ('%s can fail in the middle of message data (%s)' % (f.q, exc), f, f.line, None))
        ctx.ob('replies stay matched with commands', ctx.at(f), not r.bad)
        for k, c in r.n.items():
            n[k] = n.get(k, 0) + c
        for key, x in r.bad.items():
            seen.setdefault(key, x + (f,))
    for key, (msg, g, line, tr, f) in sorted(seen.items()):
        ctx.violation(key, msg, g.file, line, tr, f.q)
    for k, c in sorted(n.items()):
        ctx.count('events: ' + k, c)
    ctx.need('operations that talk to a server', roots, 30)
