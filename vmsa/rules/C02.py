"""A TLS connection is accepted only when the peer's certificate chain has been verified."""
from ..engine import Engine, path_of
from ..mustpass import MustPass, G, nonnull, NONNULL
from ..program import walk

SOCK = 'vmime::net::tls::TLSSocket'
VERIFIER = 'vmime::security::cert::certificateVerifier'
CERT = 'vmime::security::cert::X509Certificate'
SESSION = 'vmime::net::tls::TLSSession'
WEAK_FLAGS = 1 | 8 | 16 | 32        # gnutls: disable CA check, any V1 CA, MD2, MD5


def last(e):
    return e.get('f', '').rsplit('::', 1)[-1]


def fid(f):
    """Stable identity of a function that exists once per TLS library."""
    return f.q


def handshakes(P, ctx):
    """Every handshake() verifies the peer's chain against the server name before it returns."""
    CH, NAME, VER = G('peer chain'), G('peer name'), G('verifier')
    bad_calls = []

    def mark(P_, e, where):
        if e['k'] != 'call':
            return None
        n = P_.names(e)
        if any(x.endswith('::getPeerCertificates') for x in n):
            if where is None:
                return True
            return [((), (), 'n', CH, (nonnull(CH),)), ((), (), 'n', ('c', 0)), ((), (), 'x', None)]
        if any(x.endswith('::getPeerName') for x in n):
            if where is None:
                return True
            return [((), (), 'n', NAME, (nonnull(NAME),)), ((), (), 'x', None)]
        if any(x.endswith('::getCertificateVerifier') for x in n):
            return True if where is None else [((), (), 'n', VER, (nonnull(VER),))]
        if VERIFIER + '::verify' in n:
            if where is None:
                return True
            eng, C, node, st = where
            a = [eng.val(x, st, C) for x in e['a']]
            o = eng.val(e['o'], st, C) if e.get('o') is not None else None
            if a[:1] == [CH] and a[1:2] == [NAME] and o == VER:
                return [(('verified',), (), 'n', None), ((), (), 'x', None)]
            what = [w for w, ok in (('the peer certificates', a[:1] == [CH]), ('the peer name', a[1:2] == [NAME]),
                                    ('the session verifier', o == VER)) if not ok]
            bad_calls.append((C.func, node.line, what))
            return [((), (), 'n', None), ((), (), 'x', None)]
        return None
    n = 0
    for cls in sorted(P.subclasses(SOCK)):
        for f in P.byq.get(cls + '::handshake', []):
            n += 1
            early = []

            def assign(eng, C, node, st):
                if node.kind == 'asg' and path_of(node.e['x'], C.alias) == 'this.m_connected' and 'verified' not in st.q:
                    v = eng.val(node.e['y'], st, C)
                    if v != ('c', 0):
                        early.append((C.func, node.line, eng.trace()))
                return None
            rule = MustPass(mark, assign=assign, enter=lambda g: g.file.startswith('vmime/net/tls/'))
            eng = Engine(P, rule, ctx.fx)
            eng.self_class = cls
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            ok = all(o[0] != 'n' or 'verified' in o[3] for o in outs) and any(o[0] == 'n' for o in outs)
            ctx.ob('handshake verifies the peer chain before returning', ctx.at(f), ok and not early)
            if not ok:
                why = '; '.join('verify() at line %d is not given %s' % (l, ' and '.join(w)) for _f, l, w in bad_calls)
                ctx.violation('handshake:' + f.q, '%s can return normally without a successful verification of the '
                              'peer certificates%s' % (f.q, ' (' + why + ')' if why else ''), f.file, f.line, None, f.q)
            if early:
                g, line, tr = early[0]
                ctx.violation('handshake-early:' + f.q, '%s marks the connection as established before the peer '
                              'certificates are verified' % f.q, g.file, line, tr, f.q)
        # the chain handed over comes from the TLS library
        for f in P.byq.get(cls + '::getPeerCertificates', []):
            def mark2(P_, e, where):
                if e['k'] == 'call' and last(e) in ('gnutls_certificate_get_peers', 'SSL_get_peer_cert_chain', 'SSL_get0_verified_chain'):
                    return True if where is None else [(('peers',), (), 'n', G('raw'), (nonnull(G('raw')),)),
                                                       (('none',), (), 'n', ('c', 0))]
                return None
            rule = MustPass(mark2, enter=lambda g: g.file.startswith('vmime/net/tls/'))
            eng = Engine(P, rule, ctx.fx)
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            ok = all(o[0] != 'n' or o[2] == ('c', 0) or 'peers' in o[3] for o in outs)
            ctx.ob('peer chain comes from the TLS session; null when there is none', ctx.at(f), ok)
            if not ok:
                ctx.violation('peers:' + f.q, '%s can return a chain that does not come from the TLS session' % f.q,
                              f.file, f.line, None, f.q)
    ctx.need('handshake implementations', n, 2)


def verifier_plumbing(P, ctx):
    """The verifier used by a session is the one the application gave to the service."""
    n = 0
    for f in P.fn:
        for c in f.calls():
            if c.get('f') == SESSION + '::create':
                n += 1
                a = c['a'][0] if c['a'] else None
                ok = from_call(P, f, a, 'vmime::net::service::getCertificateVerifier')
                ctx.ob('TLS session gets the verifier of the service', ctx.at(f, c['l']), ok)
                if not ok:
                    ctx.violation('session-verifier:' + f.q, '%s creates a TLS session with a verifier that is not the '
                                  'one of the service' % f.q, f.file, c['l'], None, f.q)
    ctx.need('TLS sessions created', n, 3)
    m = 0
    for f in P.byq.get('vmime::net::service::getCertificateVerifier', []) + \
            [f for c in sorted(P.subclasses(SESSION)) for f in P.byq.get(c + '::getCertificateVerifier', [])]:
        g = ctx.fx.getter_path(f)
        ok = bool(g) and g[0] == 'p'
        m += 1
        if ok and f.cls != 'vmime::net::service':
            field = g[1].lstrip('.')
            for k in [h for h in P.fn if h.cls == f.cls and h.kind == 'ctor' and h.params]:
                if not any('ertificateVerifier' in p['t'] for p in k.params):
                    continue
                src = [i for i in k.d.get('inits', []) if i.get('m', '').endswith('::' + field)]
                ps = {p['d'] for p in k.params if 'ertificateVerifier' in p['t']}
                got = [i['e'] for i in src] + [a['y'] for a in k.nodes('asg') if path_of(a['x']) == 'this.' + field] + \
                      [c['a'][0] for c in k.calls() if c.get('op') == '=' and c.get('o') is not None
                       and path_of(c['o']) == 'this.' + field]
                good = bool(got) and all(path_of(e) in {'v%d' % d for d in ps} for e in got)
                ctx.ob('session stores the verifier it is given', ctx.at(k), good)
                if not good:
                    ctx.violation('session-store:' + k.q, '%s does not keep the verifier it is given' % k.q, k.file, k.line,
                                  None, k.q)
        ctx.ob('getCertificateVerifier() returns the stored verifier', ctx.at(f), ok)
        if not ok:
            ctx.violation('get-verifier:' + f.q, '%s does not return the stored verifier' % f.q, f.file, f.line, None, f.q)
    ctx.need('verifier getters', m, 3)
    for f in [f for f in P.byq.get(SESSION + '::create', [])]:
        p0 = 'v%d' % f.params[0]['d']
        ok = all(path_of(c['a'][0]) == p0 for c in f.calls()
                 if last(c).startswith('make_shared') and 'TLSSession' in c.get('t', '') and c['a'])
        ctx.ob('TLSSession::create passes the verifier on', ctx.at(f), ok)
        if not ok:
            ctx.violation('create-verifier:' + f.q, '%s does not pass its verifier to the session' % f.q, f.file, f.line,
                          None, f.q)


def from_call(P, f, e, q, depth=0):
    """Is e the result of calling q (directly, or through locals of f)?"""
    while e is not None and (e['k'] in ('cast', 'defarg') or (e['k'] == 'ctor' and e.get('cp') and len(e['a']) == 1)):
        e = e['a'][0] if e['k'] == 'ctor' else e['e']
    if e is None or depth > 4:
        return False
    if e['k'] == 'call':
        if q in P.names(e):
            return True
        ts = P.targets(e)
        if ts and all(t.d.get('body') for t in ts):
            rs = [(t, s['e']) for t in ts for s in walk(t.d['body']) if s.get('k') == 'ret' and s.get('e') is not None]
            return bool(rs) and all(from_call(P, t, r, q, depth + 1) for t, r in rs)
        return False
    if e['k'] == 'ref' and e.get('dk') in ('local', 'slocal'):
        ds = []
        for s in f.nodes('decl'):
            for v in (s['v'] if isinstance(s['v'], list) else [s['v']]):
                if v.get('d') == e['d'] and v.get('init') is not None:
                    ds.append(v['init'])
        for c in f.calls():
            if c.get('op') == '=' and c.get('o') is not None and path_of(c['o']) == 'v%d' % e['d']:
                ds.append(c['a'][0])
        return bool(ds) and all(from_call(P, f, d, q, depth + 1) for d in ds)
    if e['k'] == 'ref' and e.get('dk') == 'param':
        idx = [i for i, p in enumerate(f.params) if p.get('d') == e['d']]
        cs = [(g, c) for g in P.fn for c in g.calls() if c.get('id') == f.id]
        return bool(idx) and bool(cs) and all(len(c['a']) > idx[0] and from_call(P, g, c['a'][idx[0]], q, depth + 1) for g, c in cs)
    return False


# ---------------------------------------------------------------------------
def default_verifier(P, ctx):
    """Scenario analysis of the default verifier: one flaw at a time must be refused."""
    cls = 'vmime::security::cert::defaultCertificateVerifier'
    HOST, TYPE = G('host name'), G('type')
    scen = [('the chain is empty', 0, None), ('the certificate is not an X.509 one', 1, ('type',))]
    for n in (1, 2, 3):
        for k in range(n):
            scen.append(('certificate %d of %d is outside its validity period' % (k + 1, n), n, ('valid', k)))
        for k in range(n - 1):
            scen.append(('certificate %d of %d does not name the next one as issuer' % (k + 1, n), n, ('issuer', k)))
            scen.append(('certificate %d of %d is not signed by the next one' % (k + 1, n), n, ('sign', k)))
        scen.append(('no trusted certificate is involved (%d certificates)' % n, n, ('trust',)))
        scen.append(('the host name does not match (%d certificates)' % n, n, ('host',)))
        scen.append(('the chain ends at an expired trusted leaf (%d certificates)' % n, n, ('leaf',)))
    entry = [f for f in P.byq.get(cls + '::verify', []) if f.d.get('body')]
    ctx.need('default verifier', len(entry), 1)
    rel = None
    for what, n, flaw in scen:
        flaw = flaw or ('none',)
        for nroots in (0, 1, 2):
            for ntrust in (0, 1):
                if flaw[0] == 'leaf' and ntrust == 0:
                    continue
                certs = [G('certificate %d' % i) for i in range(n)]

                def cert_index(v):
                    return certs.index(v) if v in certs else None

                def mark(P_, e, where):
                    if e['k'] != 'call':
                        return None
                    names = P_.names(e)
                    f = e.get('f', '')
                    l = last(e)
                    hit = None
                    if f.endswith('certificateChain::getCount'):
                        hit = 'count'
                    elif f.endswith('certificateChain::getAt'):
                        hit = 'at'
                    elif l.startswith(('dynamicCast', 'dynamic_pointer_cast', 'constCast', 'static_pointer_cast')) and e['a']:
                        hit = 'cast'
                    elif any(x.endswith('::cert::certificate::getType') for x in names):
                        hit = 'type'
                    elif e.get('op') in ('==', '!='):
                        hit = 'cmp'
                    elif CERT + '::checkIssuer' in names:
                        hit = 'issuer'
                    elif CERT + '::verify' in names:
                        hit = 'sign'
                    elif CERT + '::checkValidity' in names:
                        hit = 'valid'
                    elif CERT + '::verifyHostName' in names:
                        hit = 'host'
                    elif any(x.endswith('::cert::certificate::equals') for x in names):
                        hit = 'equals'
                    elif f.startswith('std::vector<') and l in ('size', 'empty') and e.get('o') is not None \
                            and e['o']['k'] == 'mem':
                        hit = 'vec'
                    if hit is None:
                        return None
                    if where is None:
                        return hit != 'cmp'
                    eng, C, node, st = where
                    a = [eng.val(x, st, C) for x in e['a']]
                    o = eng.val(e['o'], st, C) if e.get('o') is not None else None

                    def r(v):
                        return [((), (), 'n', ('c', int(v)))]
                    if hit == 'count':
                        return r(n)
                    if hit == 'at':
                        if a[0][0] == 'c' and 0 <= a[0][1] < n:
                            v = certs[a[0][1]]
                            return [((), (), 'n', v, (), (nonnull(v),))]
                        if a[0][0] == 'c':
                            return [((), (), 'x', None)]      # out of range: undefined, not an acceptance
                        return None
                    if hit == 'cast':
                        return [((), (), 'n', a[0])] if cert_index(a[0]) is not None else None
                    if hit == 'type':
                        return [((), (), 'n', TYPE, (nonnull(TYPE),))]
                    if hit == 'cmp':
                        vs = a + ([o] if o is not None else [])
                        if TYPE in vs:
                            lit = [v for v in vs if v[0] == 'S']
                            if not lit:
                                return None
                            eq = flaw[0] != 'type' and lit[0][1] == 'X.509'
                            return r(eq == (e['op'] == '=='))
                        return None
                    if hit == 'vec':
                        k = nroots if 'oot' in e['o']['n'] else ntrust if 'rust' in e['o']['n'] else None
                        if k is None:
                            return None
                        return r(k if l == 'size' else k == 0)
                    i = cert_index(o)
                    if i is None:
                        return None
                    j = cert_index(a[0]) if a else None
                    if hit == 'issuer':
                        return r(j == i + 1 and flaw != ('issuer', i)) if j is not None else r(i == n - 1)
                    if hit == 'sign':
                        if j is not None:
                            return r(j == i + 1 and flaw != ('sign', i))
                        return r(i == n - 1 and flaw[0] not in ('trust', 'leaf'))
                    if hit == 'valid':
                        if flaw == ('valid', i) or (flaw[0] == 'leaf' and i == 0):
                            return [((), (), 'x', 'vmime::security::cert::certificateExpiredException')]
                        return [((), (), 'n', None)]
                    if hit == 'host':
                        if a and a[0] == HOST and i == 0:
                            return r(flaw[0] != 'host')
                        return [((), (), 'n', None)]
                    if hit == 'equals':
                        return r(flaw[0] == 'leaf' and i == 0)
                    return None
                for f in entry:
                    rule = MustPass(mark, enter=lambda g: g.file.startswith('vmime/security/cert/'))
                    eng = Engine(P, rule, ctx.fx)
                    if rel is not None:
                        eng.rel = rel
                    env = {}
                    if len(f.params) > 1:
                        env[('p', 'v%d' % f.params[1]['d'])] = HOST
                        env[('k', HOST)] = NONNULL
                    env[('p', 'v%d' % f.params[0]['d'])] = ('nn', 'chain')
                    outs = eng.run(f, frozenset(), env)
                    rel = eng.rel
                    ctx.absorb(eng)
                    ok = not any(o[0] == 'n' for o in outs)
                    ctx.ob('default verifier refuses when ' + what, ctx.at(f), ok)
                    if not ok:
                        ctx.violation('default-verifier:' + flaw[0], 'the default certificate verifier accepts a peer '
                                      'although %s' % what, f.file, f.line, None, f.q)
    ctx.need('scenarios for the default verifier', len(scen), 15)


# ---------------------------------------------------------------------------
def backends(P, ctx):
    """The answers of the TLS libraries are interpreted correctly."""
    n = 0

    def scenario(f, what, marks, key):
        """marks: {function: (value, {arg index: value})}; result must be false."""
        nonlocal n
        seen = set()

        def mark(P_, e, where):
            if e['k'] != 'call':
                return None
            l = last(e)
            m = marks.get(l)
            if m is None:
                return None
            if where is None:
                return True
            seen.add(l)
            eng, C, node, st = where
            post = []
            for i, v in m[1].items():
                a = e['a'][i]
                p = path_of(a['e'], C.alias) if a['k'] == 'un' and a['op'] == '&' else None
                if p:
                    post.append((('p', p), v))
            return [((), (), 'n', m[0], (), tuple(post))]
        rule = MustPass(mark, enter=lambda g: g.file.startswith('vmime/security/cert/'))
        eng = Engine(P, rule, ctx.fx)
        eng.self_class = f.cls
        outs = eng.run(f, frozenset(), {})
        ctx.absorb(eng)
        if not seen:
            return False
        n += 1
        ok = all(o[0] != 'n' or o[2] == ('c', 0) for o in outs)
        ctx.ob('%s is false when %s' % (f.name, what), ctx.at(f), ok)
        if not ok:
            ctx.violation('%s:%s' % (key, f.q), '%s may answer yes although %s' % (f.q, what), f.file, f.line, None, f.q)
        return True
    c = const = lambda v: ('c', v)
    used = {}

    def run(name, table):
        for cls in sorted(P.subclasses(CERT)):
            for f in P.byq.get(cls + '::' + name, []):
                got = 0
                for what, marks, key in table:
                    if scenario(f, what, marks, key):
                        got += 1
                used[(name, f.q)] = got
    run('verify', [
        ('gnutls_x509_crt_verify fails', {'gnutls_x509_crt_verify': (c(-1), {4: c(0)})}, 'verify-error'),
        ('gnutls_x509_crt_verify reports an invalid signature', {'gnutls_x509_crt_verify': (c(0), {4: c(2)})}, 'verify-status'),
        ('gnutls_x509_crt_list_verify fails', {'gnutls_x509_crt_list_verify': (c(-1), {6: c(0)})}, 'verify-error'),
        ('gnutls_x509_crt_list_verify reports an invalid signature', {'gnutls_x509_crt_list_verify': (c(0), {6: c(2)})}, 'verify-status'),
        ('X509_verify_cert answers 0', {'X509_verify_cert': (c(0), {})}, 'verify-0'),
        ('X509_verify_cert fails', {'X509_verify_cert': (c(-1), {})}, 'verify-error'),
        ('the trust store cannot be filled', {'X509_STORE_add_cert': (c(0), {})}, 'verify-store')])
    run('verifyHostName', [
        ('gnutls_x509_crt_check_hostname answers 0', {'gnutls_x509_crt_check_hostname': (c(0), {}),
                                                      'gnutls_x509_crt_check_hostname2': (c(0), {}),
                                                      'gnutls_x509_crt_check_ip': (c(0), {})}, 'host-0'),
        ('X509_check_host does not match', {'X509_check_host': (c(0), {}), 'X509_check_ip_asc': (c(0), {}),
                                            'X509_check_ip': (c(0), {})}, 'host-0'),
        ('X509_check_host fails', {'X509_check_host': (c(-1), {}), 'X509_check_ip_asc': (c(-2), {}),
                                   'X509_check_ip': (c(-2), {})}, 'host-error')])
    run('checkIssuer', [
        ('gnutls_x509_crt_check_issuer answers 0', {'gnutls_x509_crt_check_issuer': (c(0), {})}, 'issuer-0'),
        ('gnutls_x509_crt_check_issuer fails', {'gnutls_x509_crt_check_issuer': (c(-1), {})}, 'issuer-error')])
    ctx.need('library answers modelled', n, 7)
    for (name, q), got in sorted(used.items()):
        if name in ('verify', 'verifyHostName') and not got:
            f = P.byq[q][0]
            ctx.violation('unasked:%s' % q, '%s decides without asking the TLS library' % q, f.file, f.line, None, q)
        ctx.ob('%s asks the TLS library' % name, q, bool(got) or name == 'checkIssuer')

    # no path answers yes without the library's answer
    ASK = ('gnutls_x509_crt_verify', 'gnutls_x509_crt_list_verify', 'X509_verify_cert', 'X509_check_host',
           'X509_check_ip_asc', 'X509_check_ip', 'gnutls_x509_crt_check_hostname', 'gnutls_x509_crt_check_hostname2',
           'gnutls_x509_crt_check_ip', 'gnutls_x509_crt_check_issuer', 'X509_get_issuer_name', 'X509_check_issued')

    def asked(P_, e, where):
        if e['k'] == 'call' and last(e) in ASK:
            return True if where is None else [(('asked',), (), 'n', None)]
        return None
    for name in ('verify', 'verifyHostName', 'checkIssuer'):
        for cls in sorted(P.subclasses(CERT)):
            for f in P.byq.get(cls + '::' + name, []):
                eng = Engine(P, MustPass(asked, enter=lambda g: g.file.startswith('vmime/security/cert/')), ctx.fx)
                eng.self_class = cls
                outs = eng.run(f, frozenset(), {})
                ctx.absorb(eng)
                ok = all(o[0] != 'n' or 'asked' in o[3] or o[2] == ('c', 0) for o in outs)
                ctx.ob('%s answers yes only after asking the library' % name, ctx.at(f), ok)
                if not ok:
                    ctx.violation('unasked-path:' + f.q, '%s can answer yes without asking the TLS library' % f.q, f.file,
                                  f.line, None, f.q)
    # what the library is asked about
    for cls in sorted(P.subclasses(CERT)):
        for f in P.fn:
            if f.cls != cls:
                continue
            for e in f.calls():
                l = last(e)
                if l in ('gnutls_x509_crt_verify', 'X509_STORE_add_cert', 'X509_STORE_CTX_init'):
                    if l == 'gnutls_x509_crt_verify':
                        subj, ca = e['a'][0], e['a'][1]
                        fl = e['a'][3].get('cv')
                        ok = fl is not None and not fl & WEAK_FLAGS
                        ctx.ob('verification flags do not weaken the check', ctx.at(f, e['l']), ok)
                        if not ok:
                            ctx.violation('flags:' + f.q, '%s verifies with weakened flags' % f.q, f.file, e['l'], None, f.q)
                    elif l == 'X509_STORE_add_cert':
                        subj, ca = None, e['a'][1]
                    else:
                        subj, ca = e['a'][2], None
                    bad = (subj is not None and not (root(subj) == 'this')) or (ca is not None and root(ca) == 'this')
                    ctx.ob('subject and trust anchor are not mixed up', ctx.at(f, e['l']), not bad)
                    if bad:
                        ctx.violation('anchor:%s:%s' % (f.q, l), '%s gives the library the wrong certificate as subject '
                                      'or trust anchor' % f.q, f.file, e['l'], None, f.q)
    # dates
    DATES = {'getActivationDate': ({'gnutls_x509_crt_get_activation_time', 'X509_getm_notBefore', 'X509_get0_notBefore',
                                    'X509_get_notBefore'},
                                   {'gnutls_x509_crt_get_expiration_time', 'X509_getm_notAfter', 'X509_get0_notAfter'})}
    DATES['getExpirationDate'] = (DATES['getActivationDate'][1] | {'X509_get_notAfter'}, DATES['getActivationDate'][0])
    for name, (want, wrong) in DATES.items():
        for cls in sorted(P.subclasses(CERT)):
            for f in P.byq.get(cls + '::' + name, []):
                cs = {last(x) for x in f.calls()}
                ok = bool(cs & want) and not cs & wrong
                ctx.ob('%s asks for the right date' % name, ctx.at(f), ok)
                if not ok:
                    ctx.violation('date:' + f.q, '%s does not read the date it is named after' % f.q, f.file, f.line, None, f.q)


def root(e):
    p = path_of(e)
    if p is None and e['k'] == 'un':
        p = path_of(e['e'])
    return None if p is None else p.split('.')[0]


def validity(P, ctx):
    """checkValidity() throws outside [activation, expiration]."""
    NOW, ACT, EXP = G('now'), G('activation'), G('expiration')
    f = P.one(CERT + '::checkValidity')
    for what, order in (('the certificate is not active yet', {NOW: 1, ACT: 2, EXP: 3}),
                        ('the certificate has expired', {ACT: 1, EXP: 2, NOW: 3})):
        def mark(P_, e, where):
            if e['k'] != 'call':
                return None
            names = P_.names(e)
            v = None
            if CERT + '::getActivationDate' in names:
                v = ACT
            elif CERT + '::getExpirationDate' in names:
                v = EXP
            elif e.get('f', '').endswith('datetime::now'):
                v = NOW
            if v is not None:
                return True if where is None else [((), (), 'n', v, (nonnull(v),))]
            op = e.get('op')
            if op in ('<', '>', '<=', '>=', '==', '!=') and where is not None:
                eng, C, node, st = where
                a = [eng.val(x, st, C) for x in ([e['o']] if e.get('o') is not None else []) + e['a']]
                if len(a) == 2 and a[0] in order and a[1] in order:
                    x, y = order[a[0]], order[a[1]]
                    b = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
                    return [((), (), 'n', ('c', int(b)))]
            return None
        eng = Engine(P, MustPass(mark, enter=lambda g: g.file.startswith('vmime/security/cert/')), ctx.fx)
        outs = eng.run(f, frozenset(), {})
        ctx.absorb(eng)
        ok = not any(o[0] == 'n' for o in outs)
        ctx.ob('checkValidity throws when ' + what, ctx.at(f), ok)
        if not ok:
            ctx.violation('validity:' + what, '%s returns normally although %s' % (f.q, what), f.file, f.line, None, f.q)


def equality(P, ctx):
    """Certificates whose fingerprints cannot be computed are not equal."""
    FP = G('fingerprint')
    for cls in sorted(P.subclasses(CERT)):
        for f in P.byq.get(cls + '::equals', []):
            if not any(last(c) == 'getFingerprint' for c in f.calls()):
                continue

            def mark(P_, e, where):
                if e['k'] != 'call':
                    return None
                l = last(e)
                if l == 'getFingerprint':
                    return True if where is None else [((), (), 'n', FP, (nonnull(FP),))]
                if where is None:
                    return None
                eng, C, node, st = where
                vs = [eng.val(x, st, C) for x in ([e['o']] if e.get('o') is not None else []) + e['a']]
                if FP in vs:
                    if l == 'empty':
                        return [((), (), 'n', ('c', 1))]
                    if l in ('size', 'length'):
                        return [((), (), 'n', ('c', 0))]
                    if e.get('op') in ('==', '!='):
                        return [((), (), 'n', ('c', int(e['op'] == '==')))]
                return None
            eng = Engine(P, MustPass(mark, enter=lambda g: False), ctx.fx)
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            ok = all(o[0] != 'n' or o[2] == ('c', 0) for o in outs)
            ctx.ob('certificates without fingerprint are not equal', ctx.at(f), ok)
            if not ok:
                ctx.violation('equals:' + f.q, '%s takes two certificates for equal when no fingerprint could be computed'
                              % f.q, f.file, f.line, None, f.q)


def peer_name(P, ctx):
    """The name a socket reports for its peer is the one given to connect()."""
    n = 0
    for cls in sorted(P.subclasses('vmime::net::socket')):
        for f in P.byq.get(cls + '::getPeerName', []):
            n += 1

            def mark(P_, e, where):
                if e['k'] != 'call':
                    return None
                if last(e) == 'isNumericAddress':
                    return True if where is None else [((), (), 'n', ('c', 0))]
                if 'vmime::net::socket::getPeerName' in P_.names(e):
                    return True if where is None else [((), (), 'n', G('wrapped')), ((), (), 'x', None)]
                return None
            eng = Engine(P, MustPass(mark, enter=lambda g: False), ctx.fx)
            outs = eng.run(f, frozenset(), {})
            ctx.absorb(eng)
            ok = all(o[0] != 'n' or o[2] in (G('wrapped'), ('s', ('p', 'this.m_serverAddress'))) for o in outs)
            ctx.ob('peer name is the name given to connect()', ctx.at(f), ok)
            if not ok:
                ctx.violation('peer-name:' + f.q, '%s reports a name other than the one connected to' % f.q, f.file, f.line,
                              None, f.q)
    ctx.need('getPeerName implementations', n, 3)


def check(P, ctx):
    ctx.rule('Every TLSSocket::handshake (both TLS libraries) must pass, on every normal return and before it marks the '
             'connection as established, a call of certificateVerifier::verify with the chain obtained from the session '
             'and the peer name, on the verifier of the session, which is traced back to the service. The default '
             'verifier is analysed for chains of 0 to 3 certificates with one flaw at a time (every position): no '
             'path may return normally. The wrappers of the TLS libraries must answer no for every negative or error '
             'answer of the library.')
    ctx.assumptions += ['for a server given as a numeric address the name is looked up in the DNS (documented behaviour '
                        'of posixSocket)', 'the TLS libraries themselves answer correctly']
    handshakes(P, ctx)
    verifier_plumbing(P, ctx)
    default_verifier(P, ctx)
    backends(P, ctx)
    validity(P, ctx)
    equality(P, ctx)
    peer_name(P, ctx)
