"""Nothing learned in clear survives the switch to TLS (or to a SASL security layer)."""
from ..engine import Engine, path_of
from ..mustpass import MustPass, G
from .C01 import Marks, TLS, SASL, connections, sock_of, last

PROPS = {'PROPERTY_CONNECTION_TLS': 1, 'PROPERTY_CONNECTION_TLS_REQUIRED': 1}


def fields(P, cls):
    return {x['n'] for x in P.all_fields(cls)}


def check(P, ctx):
    ctx.rule('For each protocol connection, connect() is analysed path-sensitively with STARTTLS requested: whenever '
             'credentials are used after the handshake, the capabilities learned in clear have been dropped after the '
             'handshake, input buffered before the handshake has been discarded, and the reader of replies (IMAP parser) '
             'works on the TLS socket. startTLS() returns normally only after the handshake and with the TLS socket '
             'installed. After SASL authentication with a security layer the same holds for its socket.')
    conns = connections(P, ctx)
    n = {'credential accesses after the handshake': 0, 'startTLS': 0, 'sasl': 0}
    for cls in conns:
        fl = fields(P, cls)
        need = {}
        if 'm_extensions' in fl:
            need['clear:m_extensions'] = 'the extensions announced in clear'
        if 'm_capabilitiesFetched' in fl:
            need['capsflag'] = 'the capabilities announced in clear'
        buf = {}
        if 'm_responseState' in fl:
            buf['clear:m_responseState'] = 'input received in clear'
        if 'm_parser' in fl:
            buf['parser'] = 'the parser reading from the plain socket'
            buf['clear:m_buffer'] = 'input received in clear (parser buffer)'
        ctx.need('state to be dropped by ' + cls, len(need) + len(buf), 1)

        def assign(eng, C, node, st):
            if node.kind != 'asg' or 'secure' not in st.q:
                return None
            p = path_of(node.e['x'], C.alias)
            if p == 'this.m_capabilitiesFetched' and eng.val(node.e['y'], st, C) == ('c', 0):
                return [st.with_q(st.q | {'capsflag'})]
            return None
        bad = {}

        def cred(where):
            eng, C, node, st = where
            if 'secure' not in st.q:
                return
            n['credential accesses after the handshake'] += 1
            for tag, what in list(need.items()) + list(buf.items()):
                if tag not in st.q:
                    bad.setdefault((C.func.q, tag), (C.func, node.line, eng.trace(), what))
        for f in P.byq[cls + '::connect']:
            if f.d.get('body') is None:
                continue
            eng = Engine(P, MustPass(Marks(0, PROPS, cred), assign=assign,
                                     touch={'m_secured', 'm_socket', 'm_capabilitiesFetched'},
                                     enter=lambda g: g.file.startswith('vmime/net/')), ctx.fx)
            eng.self_class = cls
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            for o in outs:
                if o[0] == 'n' and 'secure' in o[3]:
                    for tag, what in list(need.items()) + list(buf.items()):
                        if tag not in o[3]:
                            bad.setdefault((f.q, tag), (f, f.line, None, what))
            for (fq, tag), (g, line, tr, what) in sorted(bad.items()):
                ctx.violation('kept:%s:%s' % (cls, tag), '%s goes on over TLS although %s may still be in use'
                              % (fq, what), g.file, line, tr, fq)
            ctx.ob('state learned in clear is dropped after STARTTLS', ctx.at(f), not bad)
        # startTLS itself
        for f in P.byq.get(cls + '::startTLS', []):
            n['startTLS'] += 1
            eng = Engine(P, MustPass(Marks(0, PROPS), assign=assign,
                                     touch={'m_secured', 'm_socket', 'm_capabilitiesFetched'},
                                     enter=lambda g: g.file.startswith('vmime/net/')), ctx.fx)
            eng.self_class = cls
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            for kind, exc, rv, q, of in outs:
                if kind != 'n':
                    continue
                of = dict(of)
                if 'secure' not in q:
                    ctx.violation('starttls:' + f.q, '%s can return normally without a completed handshake' % f.q,
                                  f.file, f.line, None, f.q)
                elif of.get(('p', 'this.m_socket')) != TLS:
                    ctx.violation('starttls-socket:' + f.q, '%s can return normally without installing the TLS socket'
                                  % f.q, f.file, f.line, None, f.q)
                elif of.get(('p', 'this.m_secured')) != ('c', 1):
                    ctx.violation('starttls-flag:' + f.q, '%s can return normally without marking the connection as '
                                  'secured' % f.q, f.file, f.line, None, f.q)
            ctx.ob('startTLS ends with the TLS socket in place', ctx.at(f), True)
        # SASL security layer
        for f in P.byq.get(cls + '::authenticateSASL', []):
            n['sasl'] += 1
            eng = Engine(P, MustPass(Marks(0, {}), assign=assign, touch={'m_socket'},
                                     enter=lambda g: g.file.startswith('vmime/net/')), ctx.fx)
            eng.self_class = cls
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            ok = True
            for kind, exc, rv, q, of in outs:
                if kind != 'n':
                    continue
                of = dict(of)
                if 'sasl' not in q or of.get(('p', 'this.m_socket')) != SASL:
                    ok = False
                    ctx.violation('sasl-socket:' + f.q, '%s can return normally without installing the socket of the SASL '
                                  'security layer' % f.q, f.file, f.line, None, f.q)
                for tag, what in buf.items():
                    if 'sasl' in q and tag not in q:
                        ok = False
                        ctx.violation('sasl-kept:%s:%s' % (cls, tag), '%s returns although %s may still be in use'
                                      % (f.q, what), f.file, f.line, None, f.q)
            ctx.ob('the SASL security layer takes over completely', ctx.at(f), ok)
    for k, v in n.items():
        ctx.count(k, v)
        ctx.need(k, v, 2)
