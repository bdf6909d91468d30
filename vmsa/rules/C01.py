"""When TLS is required or implicit, nothing confidential is sent in clear."""
import re

from ..engine import Engine, path_of
from ..mustpass import MustPass, G, nonnull
from ..program import walk

TLS = G('tls socket')
SASL = G('secured sasl socket')
IMPLICIT = re.compile(r'::is(IMAPS|POP3S|SMTPS)$')
CREDS = {'vmime::security::authenticator::getUsername', 'vmime::security::authenticator::getPassword',
         'vmime::security::authenticator::getAccessToken', 'vmime::security::sasl::SASLSession::evaluateChallenge',
         'vmime::net::imap::IMAPCommand::LOGIN', 'vmime::net::imap::IMAPCommand::AUTHENTICATE',
         'vmime::net::pop3::POP3Command::USER', 'vmime::net::pop3::POP3Command::PASS',
         'vmime::net::pop3::POP3Command::APOP', 'vmime::net::pop3::POP3Command::AUTH',
         'vmime::net::smtp::SMTPCommand::AUTH'}
SOCKIO = {'vmime::net::socket::' + n for n in ('send', 'sendRaw', 'sendRawNonBlocking', 'receive', 'receiveRaw')}


def last(e):
    return e.get('f', '').rsplit('::', 1)[-1]


def prop_name(e):
    """Name of the service property a property query is about."""
    n = e.get('f', '').rsplit('::', 1)[-1].split('<')[0]
    if n not in ('hasProperty', 'getPropertyValue', 'getProperty'):
        return None
    for a in e['a']:
        for x in walk(a):
            if x.get('k') == 'mem' and x.get('n', '').startswith('PROPERTY_'):
                return x['n']
    return None


def connections(P, ctx, least=3):
    cs = [c for c in sorted(P.records) if c.startswith('vmime::net::') and c.endswith('Connection')
          and any(f.d.get('body') for f in P.byq.get(c + '::connect', []))]
    ctx.need('protocol connections', len(cs), least)
    return cs


class Marks:
    """Events of a connection dialogue.  implicit: value of isXXXS(); props: fixed service properties."""

    def __init__(self, implicit, props, cred=None, io=None, caps=True):
        self.implicit, self.props, self.cred, self.io = implicit, props, cred, io

    def kind(self, P, e):
        if e['k'] != 'call':
            return None
        f = e.get('f', '')
        names = P.names(e)
        if IMPLICIT.search(f):
            return 'implicit'
        if f.endswith('tls::TLSSession::getSocket') or any(x.endswith('TLSSession::getSocket') for x in names):
            return 'getsocket'
        if any(x.endswith('tls::TLSSocket::handshake') for x in names):
            return 'handshake'
        if any(x.endswith('SASLSession::getSecuredSocket') for x in names):
            return 'saslsocket'
        if 'vmime::net::socket::connect' in names:
            return 'connect'
        if names & CREDS:
            return 'cred'
        if f.endswith('IMAPParser::setSocket'):
            return 'parser'
        l = last(e)
        if l in ('clear', 'swap', 'erase') and e.get('o') is not None and e['o'].get('k') == 'mem' and \
                e['o']['n'] in ('m_extensions', 'm_capabilities', 'm_buffer'):
            return 'clear:' + e['o']['n']
        if e.get('op') == '=' and e.get('o') is not None and e['o'].get('k') == 'mem' and \
                e['o']['n'] in ('m_extensions', 'm_capabilities', 'm_buffer', 'm_responseState'):
            return 'clear:' + e['o']['n']
        if prop_name(e):
            return 'prop'
        return None

    def __call__(self, P, e, where):
        k = self.kind(P, e)
        if k is None:
            if where is not None and e['k'] == 'call' and e.get('op') in ('==', '!='):
                eng, C, node, st = where
                vs = [eng.val(x, st, C) for x in ([e['o']] if e.get('o') is not None else []) + e['a']]
                if len(vs) == 2 and vs[0] != vs[1] and (TLS in vs or SASL in vs) and ('c', 0) not in vs:
                    # the secured socket has just been created: it is not an older one
                    return [((), (), 'n', ('c', int(e['op'] == '!=')))]
            return None
        if where is None:
            return k != 'prop' or prop_name(e) in self.props
        eng, C, node, st = where
        o = eng.val(e['o'], st, C) if e.get('o') is not None else None
        if k == 'implicit':
            return [((), (), 'n', ('c', self.implicit))]
        if k == 'prop':
            n = prop_name(e)
            if n in self.props:
                if last(e).startswith('has'):
                    return [((), (), 'n', ('c', 1))]
                return [((), (), 'n', ('c', self.props[n])), ((), (), 'x', None)]
            return None
        if k == 'getsocket':
            return [((), (), 'n', TLS, (nonnull(TLS),)), ((), (), 'x', None)]
        if k == 'handshake':
            return [(('secure',) if o == TLS else (), (), 'n', None), ((), (), 'x', None)]
        if k == 'saslsocket':
            return [(('sasl',), ('parser', 'clear:m_buffer', 'clear:m_responseState'), 'n', SASL, (nonnull(SASL),)),
                    ((), (), 'x', None)]
        if k == 'connect':
            if o == TLS:
                return [(('secure',), (), 'n', None), ((), (), 'x', None)]
            return [(('clear',), (), 'n', None), ((), (), 'x', None)]
        if k == 'cred':
            if self.cred:
                self.cred(where)
            return [((), (), 'n', None), ((), (), 'x', None)] if last(e).startswith(('get', 'evaluate')) else None
        if k == 'parser':
            v = eng.val(e['a'][0], st, C)
            add = ('parser',) if v in (TLS, SASL) else ()
            return [(add, (), 'd', None)]
        if k.startswith('clear:'):
            if 'secure' in st.q or 'sasl' in st.q:
                return [((k,), (), 'n', None)]
            return [((), (), 'n', None)]
        return None


def sock_of(C, st):
    return st.env.get(('p', 'this.m_socket'))


def is_true(eng, C, node, st):
    e = node.e
    return eng.val(e['y'], st, C)


def check(P, ctx):
    ctx.rule('connect() of every protocol connection is analysed path-sensitively (callees and exception handlers '
             'included) (a) with implicit TLS off and the properties connection.tls and connection.tls.required set, '
             '(b) with implicit TLS on. Every credential access or authentication command must lie behind a completed '
             'handshake and go to the TLS socket, and no path may return normally without it. m_secured is set '
             'only on the TLS socket. TLSSocket::connect completes the handshake; TLS sockets use the plain socket only '
             'from the callbacks of the TLS library.')
    conns = connections(P, ctx)
    ncred = [0]
    for cls in conns:
        for f in P.byq[cls + '::connect']:
            if f.d.get('body') is None:
                continue
            for what, implicit, props in (
                    ('TLS is required', 0, {'PROPERTY_CONNECTION_TLS': 1, 'PROPERTY_CONNECTION_TLS_REQUIRED': 1}),
                    ('the protocol uses implicit TLS', 1, {})):
                bad = {}

                def cred(where):
                    eng, C, node, st = where
                    ncred[0] += 1
                    ok = 'secure' in st.q
                    if ok and C.func.cls == cls and sock_of(C, st) not in (TLS, SASL):
                        ok = False
                    if not ok:
                        bad.setdefault((C.func.q, last(node.e)), (C.func, node.line, eng.trace()))

                def assign(eng, C, node, st):
                    if node.kind == 'asg' and path_of(node.e['x'], C.alias) == 'this.m_secured':
                        v = eng.val(node.e['y'], st, C)
                        if v != ('c', 0) and sock_of(C, st) not in (TLS, SASL):
                            bad.setdefault((C.func.q, 'm_secured'), (C.func, node.line, eng.trace()))
                    return None
                rule = MustPass(Marks(implicit, props, cred), assign=assign, touch={'m_secured', 'm_socket'},
                                enter=lambda g: g.file.startswith('vmime/net/'))
                eng = Engine(P, rule, ctx.fx)
                eng.self_class = cls
                outs = eng.run(f, frozenset(), {})
                ctx.absorb(eng)
                for (fq, w), (g, line, tr) in sorted(bad.items()):
                    if w == 'm_secured':
                        ctx.violation('secured:%s:%s' % (fq, implicit), '%s reports a secured connection that does not use a '
                                      'TLS socket' % fq, g.file, line, tr, fq)
                    else:
                        ctx.violation('clear:%s:%s:%s' % (fq, w, implicit), '%s uses credentials (%s) although %s and no TLS '
                                      'handshake has been completed' % (fq, w, what), g.file, line, tr, fq)
                ret = [o for o in outs if o[0] == 'n' and 'secure' not in o[3]]
                if ret:
                    ctx.violation('returns:%s:%s' % (f.q, implicit), '%s can succeed without TLS although %s' % (f.q, what),
                                  f.file, f.line, None, f.q)
                ctx.ob('no credentials and no success in clear when ' + what, ctx.at(f), not bad and not ret)
                ctx.ob('connect can succeed over TLS', ctx.at(f), any(o[0] == 'n' for o in outs))
                ctx.need('successful paths of %s when %s' % (f.q, what), len([o for o in outs if o[0] == 'n']), 1)
    ctx.count('credential accesses reached', ncred[0])
    ctx.need('credential accesses reached', ncred[0], 8)
    # connection state queries
    n = 0
    for cls in conns:
        for f in P.byq.get(cls + '::isSecuredConnection', []):
            n += 1
            g = ctx.fx.getter_path(f)
            ok = g == ('p', '.m_secured')
            ctx.ob('isSecuredConnection() reports m_secured', ctx.at(f), ok)
            if not ok:
                ctx.violation('is-secured:' + f.q, '%s does not report whether TLS is in use' % f.q, f.file, f.line, None, f.q)
    ctx.need('isSecuredConnection implementations', n, 3)
    implicit_services(P, ctx)
    tls_sockets(P, ctx)


def implicit_services(P, ctx):
    """The xxxS services switch implicit TLS on."""
    n = 0
    for cls in sorted(P.subclasses('vmime::net::service')):
        names = [x.get('s', '') for f in P.byq.get(cls + '::getProtocolName', []) for x in f.nodes('str')]
        if not any(re.fullmatch(r'(imap|pop3|smtp)s', x) for x in names):
            continue
        for k in [f for f in P.fn if f.cls == cls and f.kind == 'ctor']:
            n += 1
            ok = False
            for b in P.bases(cls):
                flds = [ctx.fx.getter_path(g) for g in P.fn if g.cls == b and IMPLICIT.search(g.q)]
                for bc in [g for g in P.fn if g.cls == b and g.kind == 'ctor']:
                    for i in bc.d.get('inits', []):
                        if 'm' not in i or ('p', '.' + i['m'].rsplit('::', 1)[-1]) not in flds:
                            continue
                        idx = [j for j, p in enumerate(bc.params) if path_of(i['e']) == 'v%d' % p['d']]
                        for di in k.d.get('inits', []):
                            e = di['e']
                            if e['k'] == 'ctor' and e.get('id') == bc.id and idx and idx[0] < len(e['a']):
                                a = e['a'][idx[0]]
                                while a['k'] == 'defarg':
                                    a = a['e']
                                ok = a.get('cv') == 1
            ctx.ob('service with implicit TLS switches it on', ctx.at(k), ok)
            if not ok:
                ctx.violation('implicit:' + k.q, '%s does not switch implicit TLS on' % k.q, k.file, k.line, None, k.q)
    ctx.need('constructors of services with implicit TLS', n, 3)


def tls_sockets(P, ctx):
    n = m = 0
    callers = {}
    for f in P.fn:
        for c in f.calls():
            for t in P.targets(c):
                callers.setdefault(t, set()).add(f)
    for cls in sorted(P.subclasses('vmime::net::tls::TLSSocket')):
        for f in P.byq.get(cls + '::connect', []):
            n += 1

            def mark(P_, e, where):
                if e['k'] == 'call' and 'vmime::net::tls::TLSSocket::handshake' in P_.names(e):
                    return True if where is None else [(('handshake',), (), 'n', None), ((), (), 'x', None)]
                return None
            eng = Engine(P, MustPass(mark, enter=lambda g: g.file.startswith('vmime/net/tls/')), ctx.fx)
            eng.self_class = cls
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            ok = all(o[0] != 'n' or 'handshake' in o[3] for o in outs)
            ctx.ob('TLSSocket::connect completes the handshake', ctx.at(f), ok)
            if not ok:
                ctx.violation('tls-connect:' + f.q, '%s can return normally without a completed handshake' % f.q, f.file,
                              f.line, None, f.q)
        memo = {}

        def only_callbacks(g, seen):
            if g in memo:
                return memo[g]
            if g in seen:
                return True
            d = P.decl.get(g.id, {})
            if d.get('virt') or d.get('ov') or g.d.get('acc') == 'public' and not g.d.get('static'):
                return False
            return all(only_callbacks(h, seen | {g}) for h in callers.get(g, ()))
        for f in P.fn:
            if f.cls != cls:
                continue
            for e in f.calls():
                if e['k'] == 'call' and P.names(e) & SOCKIO and e.get('o') is not None:
                    p = path_of(e['o']) or ''
                    if not p.endswith('m_wrapped'):
                        continue
                    m += 1
                    ok = only_callbacks(f, set())
                    ctx.ob('plain socket used only by the TLS library', ctx.at(f, e['l']), ok)
                    if not ok:
                        ctx.violation('bypass:' + f.q, '%s transfers data over the plain socket, around TLS' % f.q, f.file,
                                      e['l'], None, f.q)
    ctx.need('TLSSocket::connect implementations', n, 2)
    ctx.need('uses of the plain socket', m, 3)
