"""C04: credentials are never traced and never part of an error message."""
import re

from ..taint import Taint, lab
from .. import program

SRC = re.compile(r'::(getPassword|getAccessToken|getUsername)$')
NETDIRS = ('vmime/net/imap/', 'vmime/net/pop3/', 'vmime/net/smtp/', 'vmime/net/sendmail/', 'vmime/net/maildir/',
           'vmime/net/tls/', 'vmime/security/sasl/', 'vmime/net/')


def check(P, ctx):
    ctx.rule('Forward data flow from every place that obtains a user name, a password, an access token or a response computed '
             'by a SASL mechanism, through strings, streams, members and calls (followed in context), to the text given to a '
             'tracer and to the arguments of exceptions: none of these may carry a credential.')

    def source(e, f):
        n = e.get('f', '')
        if e['k'] == 'call':
            if SRC.search(n) and any(P.derives(r, 'vmime::security::authenticator') for r in [n.rsplit('::', 1)[0]]):
                return {'ret': frozenset([n.rsplit('::', 1)[-1]])}
            if n == 'vmime::security::sasl::SASLSession::evaluateChallenge':
                return {2: frozenset(['SASL response'])}
        return None

    def sink(e, f):
        n = e.get('f', '')
        if e['k'] == 'call' and n.startswith('vmime::') and n.endswith(('::traceSend', '::traceReceive')):
            return range(len(e['a']))
        if e['k'] == 'call' and n.endswith(('::traceSendBytes', '::traceReceiveBytes')):
            return [1]
        if e['k'] == 'ctor' and f.kind != 'ctor':
            t = e.get('t', '').replace('const ', '')
            if P.derives(t, 'vmime::exception'):
                return range(len(e['a']))
        return None
    hits = {}

    def found(f, node, i, ls):
        hits.setdefault((f, node.line, node.e['k']), set()).update(ls)
    fs = [f for f in P.fn if f.file.startswith(NETDIRS) and f.d.get('body')]
    T = Taint(P, source, sink, found, track=r'::(SMTP|POP3|IMAP)Command(Set)?\b')
    roots = fs
    ctx.counts['rounds'] = T.run(roots)
    nsrc = sum(1 for f in fs for c in f.calls() if source(c, f))
    sinks = [(f, c) for f in fs for c in f.calls() if sink(c, f) is not None]
    ctx.need('places that obtain credentials', nsrc, 10)
    ctx.need('traced texts and exception arguments', len(sinks), 60)
    ctx.counts['members that hold credentials'] = len(T.G)
    ctx.counts['functions evaluated'] = len(T.evaluated)
    bad = {(f, l) for f, l, k in hits}
    for f, c in sinks:
        ctx.ob('no credential in a traced text or error message', ctx.at(f, c.get('l')), (f, c.get('l')) not in bad)
    for (f, l, k), ls in sorted(hits.items(), key=lambda t: (t[0][0].q, t[0][1])):
        ctx.violation('%s:%s' % ('trace' if k == 'call' else 'exc', f.q), '%s: the text %s may contain a credential (%s)' %
                      (f.q, 'given to the tracer' if k == 'call' else 'of the exception', ', '.join(sorted(ls))),
                      f.file, l, None, f.q)
