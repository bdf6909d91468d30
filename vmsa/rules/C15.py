"""Whatever is acquired is released exactly once, on every path."""
import re

from ..program import walk
from ..engine import Engine, Rule, State, path_of, is_smart, transparent
from .C16 import strip, noreturn

RV = ('s', ('G', 'res'))
ANY = (None, None, frozenset())
NN = (None, None, frozenset([0]))
ZERO = (0, 0, frozenset())
FD = (0, None, frozenset())
M1 = (-1, -1, frozenset())
VAR = re.compile(r'^v\d+$')
SASL = 'vmime::security::sasl::'

# C and library functions that hand out a resource: name -> (kind, output argument or None for the result,
#   constraint of the result on success, constraint on failure)
ACQ = {
    'iconv_open': ('iconv', None, (None, None, frozenset([-1])), M1),
    'open': ('fd', None, FD, M1), 'socket': ('fd', None, FD, M1), 'mkstemp': ('fd', None, FD, M1), 'dup': ('fd', None, FD, M1),
    'accept': ('fd', None, FD, M1),
    'opendir': ('dir', None, NN, ZERO), 'fopen': ('file', None, NN, ZERO), 'fdopen': ('file', None, NN, ZERO),
    'malloc': ('malloc', None, NN, ZERO), 'calloc': ('malloc', None, NN, ZERO), 'strdup': ('malloc', None, NN, ZERO),
    'BIO_new': ('bio', None, NN, ZERO), 'BIO_new_mem_buf': ('bio', None, NN, ZERO), 'BIO_meth_new': ('biometh', None, NN, ZERO),
    'SSL_new': ('ssl', None, NN, ZERO), 'SSL_CTX_new': ('sslctx', None, NN, ZERO),
    'X509_STORE_new': ('store', None, NN, ZERO), 'X509_STORE_CTX_new': ('storectx', None, NN, ZERO),
    'X509_get_ext_d2i': ('ext', None, NN, ZERO), 'ASN1_INTEGER_to_BN': ('bn', None, NN, ZERO), 'X509_dup': ('x509', None, NN, ZERO),
    'd2i_X509': ('x509', None, NN, ZERO), 'SSL_get_peer_certificate': ('x509', None, NN, ZERO),
    'SSL_get1_peer_certificate': ('x509', None, NN, ZERO),
    'PEM_read_bio_X509': ('x509', 1, NN, ZERO), 'i2d_X509': ('ossl', 1, (1, None, frozenset()), (None, -1, frozenset())),
    'ucnv_open': ('ucnv', None, NN, ZERO),
    'getaddrinfo': ('addrinfo', 3, ZERO, NN),
    'gsasl_init': ('gsasl', 0, ZERO, NN), 'gsasl_client_start': ('gsasls', 2, ZERO, NN),
    'gsasl_step': ('gsaslb', 3, (0, 1, frozenset()), (2, None, frozenset())),
    'gsasl_encode': ('gsaslb', 3, ZERO, NN), 'gsasl_decode': ('gsaslb', 3, ZERO, NN),
    'gnutls_init': ('gnutls', 0, ZERO, NN), 'gnutls_x509_crt_init': ('crt', 0, None, None),
    'gnutls_certificate_allocate_credentials': ('cred', 0, None, None),
    'gnutls_anon_allocate_client_credentials': ('anon', 0, None, None),
    'pipe': ('fd', 0, ZERO, M1),
    SASL + 'SASLMechanism::step': ('new[]', 3, None, None), SASL + 'SASLMechanism::encode': ('new[]', 3, None, None),
    SASL + 'SASLMechanism::decode': ('new[]', 3, None, None), SASL + 'SASLSession::evaluateChallenge': ('new[]', 2, None, None),
    SASL + 'SASLContext::decodeB64': ('new[]', 1, None, None),
    'vmime::platforms::posix::posixSocket::resolve': ('addrinfo', 0, None, None),
    'getaddrinfo_a': ('request', 1, ZERO, NN),
}
REL = {
    'iconv_close': 'iconv', 'close': 'fd', 'closedir': 'dir', 'fclose': 'file', 'free': 'malloc',
    'BIO_free': 'bio', 'BIO_vfree': 'bio', 'BIO_free_all': 'bio', 'BIO_meth_free': 'biometh',
    'SSL_free': 'ssl', 'SSL_CTX_free': 'sslctx', 'X509_STORE_free': 'store', 'X509_STORE_CTX_free': 'storectx',
    'BN_free': 'bn', 'X509_free': 'x509', 'CRYPTO_free': 'ossl', 'ucnv_close': 'ucnv', 'freeaddrinfo': 'addrinfo',
    'gsasl_done': 'gsasl', 'gsasl_finish': 'gsasls', 'gsasl_free': 'gsaslb', 'gnutls_deinit': 'gnutls',
    'gnutls_x509_crt_deinit': 'crt', 'gnutls_certificate_free_credentials': 'cred',
    'gnutls_anon_free_client_credentials': 'anon', 'OPENSSL_sk_pop_free': 'ext', 'GENERAL_NAMES_free': 'ext',
    'sk_GENERAL_NAME_pop_free': 'ext',
}
# C functions that take over a resource: name -> {argument: kind}
TAKE = {'SSL_set_bio': {1: 'bio', 2: 'bio'}, 'fdopen': {0: 'fd'}}
MEM = {'new', 'new[]', 'malloc'}
CONT = re.compile(r'::(push_back|push_front|insert|emplace\w*|push)$')


class Own(Rule):
    """Follows one resource. q = (state, member): '-' none, H held by a local variable, M stored in a member of the
    object, O stored where the caller finds it, T handed over, R released, P given up as it is still used by the resolver."""
    max_states = 120
    interfacts = True

    def __init__(self, P, root, site, kind, ctx, escapes, elem=None, member=None, nr=()):
        self.P, self.root, self.site, self.kind, self.ctx = P, root, site, kind, ctx
        self.escapes, self.elem, self.member, self.nr = escapes, elem, member, nr
        self.bad = []
        self.stores = set()
        self.conts = set()
        # handles that are kept in an allocated variable are identified with the pointer to it
        self.nostar = kind not in ('iconv', 'gnutls')

    def direct(self, eng, f):
        if f in self.nr:
            return True
        if any(self.escapes(f, i, self.kind) == 'free' for i in range(len(f.params))):
            return True
        if f is self.root or f.cls != self.root.cls or not f.cls:
            return False
        # helpers of the same class that touch an owning member
        return any(True for _ in self.touch(f))

    def touch(self, f):
        for n in f.nodes('mem'):
            if n['b'] is not None and n['b']['k'] == 'this' and (self.member is None or n['n'] == self.member.split('[')[0]):
                for c in f.calls():
                    if REL.get(c.get('f')) == self.kind:
                        yield n
                for d in f.nodes('delete'):
                    yield n
                for a in f.nodes('asg'):
                    if a['x']['k'] == 'mem' and a['x']['n'] == n['n']:
                        yield n

    def may_enter(self, eng, f):
        return f.cls == self.root.cls

    def report(self, what, line):
        self.bad.append((what, line))

    # events ---------------------------------------------------------------------------------
    def acquire(self, C, node, st, kindinfo):
        e = node.e
        kind, arg, ok, no = kindinfo
        key = ('e', e['i'])
        sym = ('s', ('call', C.func.id, e['i']))
        drop = tuple((k, None) for k in st.env if k[0] == 'r' and RV in k[1:])
        if st.q[0] == 'H':
            self.report('acquires it again without having released the first one', node.line)
        if arg is None:
            out = [(('H', None), 'n', None, (), ((key, RV), (('k', RV), ok)) + drop)]
            if no is not None:
                out.append((st.q, 'n', None, (), ((key, sym), (('k', sym), no))))
            return out
        a = strip(e['a'][arg])
        p = path_of(a, C.alias)
        if p is None:
            return None
        if self.elem is not None:
            p = '%s[%d]' % (p, self.elem)
        q = self.placed(a['e'] if a['k'] == 'un' and a['op'] == '&' else a, p, st, byaddr=a['k'] == 'un')
        good = ((('p', p), RV), (('k', RV), NN if kind not in ('fd',) else FD)) + drop
        if ok is not None:
            good += ((key, sym), (('k', sym), ok))
        out = [(q, 'n', None, (), good)]
        if no is not None:
            out.append((st.q, 'n', None, (), ((key, sym), (('k', sym), no))))
        if e.get('id') and self.P.targets(e):
            out.append((st.q, 'x', '?'))
        return out

    def placed(self, lhs, p, st, byaddr=True):
        """State after the resource was stored in lvalue lhs (path p)."""
        x = lhs
        while x is not None and x['k'] == 'cast':
            x = x['e']
        if x is not None and x['k'] == 'un' and x['op'] == '*':
            return ('O', None)
        if x is not None and x['k'] == 'ref' and x.get('dk') == 'param' and not byaddr:
            t = x.get('t', '')
            return ('O', None)
        if p.startswith('this.'):
            m = p[5:]
            if '[v' in m:
                return ('T', None)
            if '.' in m:
                if x['k'] == 'mem':
                    self.stores.add((x['q'].rsplit('::', 1)[0], x['n']))
                return ('T', None)
            self.stores.add((self.root.cls, m))
            return ('M', m)
        if p.startswith('g:'):
            return ('T', None)
        if '.' in p or '[v' in p:
            if x is not None and x['k'] == 'mem' and x['q'].rsplit('::', 1)[0] not in self.P.records and '*' not in p and \
                    st.q[0] in ('H', 'M'):
                return st.q             # plain C struct: a copy
            if x is not None and x['k'] == 'mem':
                self.stores.add((x['q'].rsplit('::', 1)[0], x['n']))
            return ('T', None)
        if x is not None and x['k'] == 'ref' and x.get('dk') == 'param' and x.get('t', '').endswith('&'):
            return ('O', None)
        return ('H', None)

    def value(self, eng, e, st, C):
        x = strip(e)
        while x is not None and x['k'] == 'call' and x.get('f', '').startswith('ossl_check_') and x['a']:
            x = strip(x['a'][0])
        if x is None:
            return ('u',)
        if x['k'] == 'un' and x['op'] == '*' and not self.nostar:
            return st.env.get(('p', path_of(x, C.alias)), ('u',))
        return eng.val(x, st, C)

    def holders(self, st):
        return [k[1] for k, v in st.env.items() if k[0] == 'p' and v == RV]

    def event(self, eng, C, node, st, depth):
        e = node.e
        P, q = self.P, st.q
        if node.kind == 'new':
            return self.acquire(C, node, st, (self.kind, None, NN, None)) if e is self.site else None
        if node.kind == 'delete':
            k = 'new[]' if e.get('arr') else 'new'
            return self.release(eng, C, node, st, e['e'], k)
        if self.site is e and node.kind == 'call':
            return self.acquire(C, node, st, self.info)
        f = e.get('f', '')
        if node.kind == 'call' and f in REL and e['a']:
            r = self.release(eng, C, node, st, e['a'][0], REL[f])
            if r is not None:
                return r
        if q[0] not in ('H', 'M', 'O', 'R'):
            return None
        if self.kind == 'new' and f == 'gai_cancel' and q[0] == 'H' and \
                (path_of(e['a'][0], C.alias) or '').lstrip('*').split('.')[0] in self.holders(st):
            # the request is in the object: it is given up if it cannot be cancelled
            key = ('e', e['i'])
            return [(q, 'n', None, (), ((key, ('c', v)),)) for v in (-101, -103)] + \
                   [(('P', None), 'n', None, (), ((key, ('c', -102)),))]
        if self.kind == 'request' and f in ('gai_suspend', 'gai_cancel') and q[0] == 'H':
            sym = ('s', ('call', C.func.id, e['i']))
            key = ('e', e['i'])
            fin = [0, -103] if f == 'gai_suspend' else [-101, -103]
            return [(('R', None), 'n', None, (), ((key, ('c', v)),)) for v in fin] + \
                   [(q, 'n', None, (), ((key, sym), (('k', sym), (None, None, frozenset(fin)))))]
        for i, a in enumerate(e['a']):
            if a is None or eng.val(a, st, C) != RV or a['k'] == 'un' and a['op'] == '&' and not is_handle(self.kind):
                continue
            if TAKE.get(f, {}).get(i) == self.kind:
                return [(('T', None), 'n', None)]
            if q[0] == 'R':
                continue
            if node.kind == 'ctor' and is_smart(e.get('t')) or f.endswith('::reset') and is_smart(e.get('ot')) or \
                    node.kind == 'call' and CONT.search(f) and e.get('ot', '').startswith('std::'):
                self.contain(e.get('o'), C)
                return [(('T', None), 'd', None)]
            ts = made(P, e) or P.targets(e)
            es = {self.escapes(t, i, self.kind) for t in ts}
            if q[0] == 'M' and 'free' not in es:
                continue            # lent: the member goes on holding it
            for t in ts:
                m = self.escapes.member(t, i)
                if m:
                    self.stores.add((t.cls, m))
            if 'take' in es or node.kind == 'ctor' and not ts and f.startswith('std::'):
                return [(('T', None), 'd', None)]
            if 'free' in es:
                return None         # followed into the callee
        if q[0] == 'R' and any(a is not None and eng.val(a, st, C) == RV and a['k'] != 'un' for a in e['a']):
            self.report('uses it after having released it', node.line)
        return None

    def contain(self, o, C):
        """The resource goes into a container of raw pointers: who owns that one?"""
        o = strip(o)
        if o is not None and o['k'] == 'mem' and not is_smart_elem(o.get('t', '')):
            self.conts.add((o['q'].rsplit('::', 1)[0], o['n']))

    def release(self, eng, C, node, st, arg, kind):
        q = st.q
        v = self.value(eng, arg, st, C)
        if v == RV:
            if kind != self.kind:
                if {kind, self.kind} <= MEM and q[0] != '-':
                    self.report('releases what was acquired with %s as if it came from %s' % (self.kind, kind), node.line)
                    return [(('R', q[1]), 'n', None)]
                return None
            if q[0] == 'R':
                self.report('releases it twice', node.line)
            if q[0] == 'P':
                self.report('releases it although the resolver is still using it', node.line)
            return [(('R', q[1]), 'n', None)]
        if kind == self.kind and q[0] in ('H', 'O') and v[0] != 'c' and not self.holders(st):
            return [(('R', None), 'n', None)]
        return None

    def at_assign(self, eng, C, node, st):
        e = node.e
        q = st.q
        if node.kind == 'asg':
            if 'op' in e:
                return [st]
            lhs, rhs = e['x'], e['y']
            p = path_of(lhs, C.alias)
        elif node.kind == 'decl':
            if node.e is None:
                return [st]
            lhs, rhs, p = None, node.e, 'v%d' % node.x['d']
            if is_smart(node.x.get('t')) and eng.val(rhs, st, C) == RV and q[0] == 'H':
                return [st.with_q(('T', None))]
        elif node.kind == 'minit':
            lhs, rhs, p = None, node.e, 'this.' + node.x.rsplit('::', 1)[-1]
        else:
            return [st]
        if p is None:
            # stored in a place that is not followed (array element, object behind a pointer)
            if rhs is not None and eng.val(rhs, st, C) == RV and q[0] == 'H':
                if lhs is not None and lhs['k'] == 'call' and lhs.get('op') == '[]':
                    self.contain(lhs.get('o'), C)
                return [st.with_q(('T', None))]
            return [st]
        v = eng.val(rhs, st, C)
        if v == RV:
            if q[0] == 'H':
                if node.kind == 'minit':
                    if is_smart_member(self.P, self.root.cls, p[5:]):
                        return [st.with_q(('T', None))]
                    self.stores.add((self.root.cls, p[5:]))
                    return [st.with_q(('M', p[5:]))]
                if lhs is not None:
                    if is_smart(lhs.get('t')):
                        return [st.with_q(('T', None))]
                    deref = lhs['k'] == 'un' and lhs['op'] == '*'
                    n = self.placed(lhs, p, st, byaddr=not deref)
                    if deref and VAR.match(p) and st.env.get(('p', p), (0,))[0] == 'nn':
                        # *p = resource, p freshly allocated
                        n = ('T' if self.nostar else 'H', None)
                    return [st.with_q(n)]
            return [st]
        if st.env.get(('p', p)) == RV and (lhs is None or lhs['k'] != 'un'):
            if q[0] == 'R':
                if p == 'this.%s' % q[1]:
                    return [st.with_q(('-', None))]
            elif q[0] == 'H' and self.holders(st) == [p]:
                self.report('loses it by overwriting the variable that holds it', node.line)
            elif q[0] == 'M' and p == 'this.%s' % q[1]:
                hs = [h for h in self.holders(st) if h != p]
                if hs:
                    return [st.with_q(('H', None))]
                if self.guarded(st):
                    return [st.with_q(('-', None))]
                self.report('loses it by overwriting the member that holds it', node.line)
                return [st.with_q(('-', None))]
        return [st]

    def guarded(self, st):
        """The path has tested that a sibling member (length, flag) is zero: taken to mean that the resource is not held."""
        for k, v in st.env.items():
            if k[0] == 'k' and k[1][0] == 's' and k[1][1][0] == 'p' and k[1][1][1].startswith('this.') and v[0] == v[1] == 0:
                return True
        return False

    def at_return(self, eng, C, node, st, v):
        if C.func is self.root and v == RV and st.q[0] in ('H', 'R'):
            if st.q[0] == 'R':
                self.report('returns it after having released it', node.line)
            return [st.with_q(('T', None))]
        return [st]

    def bind(self, eng, C, node, st, t):
        out = {}
        for a, p in zip(node.e['a'], t.params):
            if a is not None and eng.val(a, st, C) == RV and not (a['k'] == 'un' and a['op'] == '&'):
                out[('p', 'v%d' % p['d'])] = RV
                if ('k', RV) in st.env:
                    out[('k', RV)] = st.env[('k', RV)]
        o = node.e.get('o')
        if o is not None and path_of(o, C.alias) == 'this':
            for k, v in st.env.items():
                if k[0] == 'p' and k[1].startswith('this.') and v == RV:
                    out[k] = v
                    if ('k', RV) in st.env:
                        out[('k', RV)] = st.env[('k', RV)]
        return out


def made(P, e):
    """Constructors a make_shared()/make_unique() call may run."""
    if not e.get('f', '').startswith(('std::make_shared', 'std::make_unique')):
        return None
    m = re.match(r'^(?:const )?std::(?:shared_ptr|unique_ptr)<(?:const )?([\w:]+)', e.get('t', ''))
    if not m:
        return None
    c = m.group(1)
    return [f for f in P.fn if f.kind == 'ctor' and f.cls == c and len(f.params) == len(e['a'])]


def is_smart_elem(t):
    return bool(re.search(r'(shared|unique|scoped|weak)_ptr<', t))


def is_handle(kind):
    return kind not in MEM


def is_smart_member(P, cls, m):
    c = P.cls.get(cls) if hasattr(P, 'cls') else None
    return False


class Escapes:
    """What a function does with a pointer parameter."""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def __call__(self, f, i, kind):
        k = (f.id, i, kind)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        self.memo[k] = r = self.compute(f, i, kind)
        return r

    def member(self, f, i):
        """Member a constructor stores its parameter in."""
        if f.kind != 'ctor' or i >= len(f.params):
            return None
        v = 'v%d' % f.params[i]['d']
        for n in f.d.get('inits', ()):
            e = strip(n.get('e'))
            if e is not None and e['k'] == 'ref' and path_of(e) == v and n.get('m'):
                return n['m'].rsplit('::', 1)[-1]
        return None

    def compute(self, f, i, kind):
        if not f.d.get('body') or i >= len(f.params):
            return None
        p = f.params[i]
        if re.match(r'^const .*[*&]$', p.get('t', '')) and kind in MEM:
            return None
        v = 'v%d' % p['d']

        def isp(e):
            e = strip(e)
            return e is not None and e['k'] == 'ref' and path_of(e) == v
        for n in f.nodes('delete'):
            if isp(n['e']):
                return 'free'
        for c in f.calls():
            for j, a in enumerate(c['a']):
                if isp(a):
                    if j == 0 and REL.get(c.get('f')) == kind:
                        return 'free'
                    if c['k'] == 'ctor' and is_smart(c.get('t')) or CONT.search(c.get('f', '')):
                        return 'take'
                    for t in self.P.targets(c):
                        r = self(t, j, kind)
                        if r:
                            return r
        for n in f.nodes('asg'):
            if isp(n['y']) and 'op' not in n and (path_of(n['x']) or '').startswith('this.'):
                return 'take'
        if f.kind == 'ctor':
            for n in f.d.get('inits', ()):
                if isp(n.get('e')):
                    return 'take'
        return None


def sites(P, f, owned):
    """(call node, kind, info, element) of acquisitions in f."""
    for n in f.nodes('new'):
        if n.get('placement'):
            continue
        yield n, 'new[]' if n.get('arr') else 'new', None, None
    for c in f.calls():
        if c['k'] != 'call':
            continue
        fn = c.get('f', '')
        info = ACQ.get(fn)
        if info is None:
            for q in P.names(c):
                if q in ACQ:
                    info = ACQ[q]
        if info is not None:
            if info[0] == 'request' and not local_request(f, c):
                continue
            if fn == 'pipe':
                yield c, 'fd', info, 0
                yield c, 'fd', info, 1
            else:
                yield c, info[0], info, None
        elif fn.endswith('::release') and c.get('ot', '').startswith('std::unique_ptr') or \
                any(t in owned for t in P.targets(c)) and c.get('t', '').rstrip().endswith('*'):
            yield c, 'new', ('new', None, NN, None), None


def local_request(f, c):
    """The request given to getaddrinfo_a() is (or may be) a local variable: it must not outlive the function."""
    a = strip(c['a'][1])
    v = path_of(a['e']) if a['k'] == 'un' and a['op'] == '&' else path_of(a)
    rhs = [n['y'] for n in f.nodes('asg') if path_of(n['x']) == v]
    for n in f.nodes('decl'):
        rhs += [x['init'] for x in n['v'] if 'v%d' % x['d'] == v and x.get('init') is not None]
    for e in rhs:
        e = strip(e)
        if e is not None and e['k'] == 'un' and e['op'] == '&' and path_of(e['e']) and behind_pointer(e['e']):
            continue
        return True
    return not rhs


def behind_pointer(e):
    while e is not None and e['k'] == 'mem':
        b = strip(e['b'])
        if b is not None and b.get('t', '').rstrip().endswith('*'):
            return True
        e = b
    return False


def returns_owned(P):
    """Functions returning a raw pointer to something they have created."""
    out, thru = set(), {}
    fs = [f for f in P.fn if f.d.get('rt', '').rstrip().endswith('*') and f.d.get('body')]
    for f in fs:
        # functions that give back their own argument
        ps = {p['d']: i for i, p in enumerate(f.params) if p.get('t', '').rstrip().endswith('*')}
        for r in f.nodes('ret'):
            e = strip(r.get('e'))
            if e is not None and e['k'] == 'ref' and e.get('d') in ps and any(strip(d['e']).get('d') == e['d'] for d in f.nodes('delete')):
                thru[f] = ps[e['d']]

    def owned(e, f, loc):
        e = strip(e)
        if e is None:
            return False
        if e['k'] == 'new':
            return not e.get('arr')
        if e['k'] == 'ref':
            return e.get('d') in loc
        if e['k'] != 'call':
            return False
        ts = P.targets(e)
        return e.get('f', '').endswith('::release') and e.get('ot', '').startswith('std::unique_ptr') or \
            any(t in out for t in ts) or \
            any(t in thru and thru[t] < len(e['a']) and owned(e['a'][thru[t]], f, loc) for t in ts)
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f in out:
                continue
            loc = set()
            for s in f.nodes('decl'):
                for v in s['v']:
                    if v.get('t', '').rstrip().endswith('*') and v.get('init') is not None and owned(v['init'], f, loc):
                        loc.add(v['d'])
            for a in f.nodes('asg'):
                if a['x']['k'] == 'ref' and a['x'].get('dk') == 'local' and owned(a['y'], f, loc):
                    loc.add(a['x']['d'])
            if any(owned(r.get('e'), f, loc) for r in f.nodes('ret')):
                out.add(f)
                ch = True
    return out


def check(P, ctx):
    ctx.rule('For every acquisition (new, new[], release() of an owner, C handles, descriptors and buffers, buffers handed '
             'out by the SASL layer) all paths of the function are followed to its normal and exceptional ends: the resource '
             'must have been released with the matching function exactly once, or handed to an owner (smart pointer, container, '
             'result, output argument, member). Members that receive a resource must be released by the destructor on every '
             'path, by a constructor that fails, and before they are overwritten; a member released elsewhere must not keep '
             'the dead value.')
    nr = noreturn(P)
    esc = Escapes(P)
    owned = returns_owned(P)
    members, conts = {}, {}
    n = 0
    for f in P.fn:
        if not f.file.startswith('vmime/') or not f.d.get('body'):
            continue
        for site, kind, info, elem in sites(P, f, owned):
            n += 1
            rule = Own(P, f, site, kind, ctx, esc, elem, None, nr)
            rule.info = info
            eng = Engine(P, rule, ctx.fx)
            for k, exc, rv, q, _ in eng.run(f, ('-', None), {}):
                finish(rule, f, k, q)
            ctx.absorb(eng)
            for cls, m in rule.stores:
                members.setdefault((cls, m, kind), (f, site))
            for cls, m in rule.conts:
                conts.setdefault((cls, m), (f, site, kind))
            done(P, ctx, f, site, kind, rule)
    ctx.need('acquisitions', n, 40)
    mem(P, ctx, members, esc, nr)
    containers(P, ctx, conts)


def containers(P, ctx, conts):
    """A container member that receives resources: the destructor must release its elements."""
    n = 0
    for (cls, m), (f0, site, kind) in sorted(conts.items(), key=str):
        if cls not in P.records:
            continue
        n += 1
        seen, work, ok = set(), [f for f in P.fn if f.kind == 'dtor' and f.cls == cls], False
        while work:
            f = work.pop()
            if f in seen:
                continue
            seen.add(f)
            if frees_elements(f, m, kind):
                ok = True
                break
            for c in f.calls():
                work += [t for t in P.targets(c) if t.cls == cls]
        ctx.ob('the destructor releases the elements of the container', '%s::%s' % (cls, m), ok)
        if not ok:
            ctx.violation('cont:%s:%s' % (cls, m), '%s puts %s in the container %s, and the destructor of %s does not release the '
                          'elements' % (f0.q, what(kind, site), m, cls), f0.file, site.get('l', 0), None, f0.q)
    ctx.counts['containers that hold resources'] = n


def frees_elements(f, m, kind):
    own = {'new': 'delete', 'new[]': 'delete'}
    # variables that stand for elements: iterators and range variables over the member
    elem = set()

    def over(e):
        return any(x.get('k') == 'mem' and x.get('n') == m or x.get('k') == 'ref' and x.get('d') in elem for x in walk(e))
    for _ in range(2):
        for s in f.nodes('rfor'):
            if over(s['r']):
                elem.add(s['var']['d'])
        for s in f.nodes('decl'):
            for v in s['v']:
                if v.get('init') is not None and over(v['init']):
                    elem.add(v['d'])
    for n in f.nodes('delete', 'call'):
        if n['k'] == 'delete' and kind in own and over(n['e']):
            return True
        if n['k'] == 'call' and REL.get(n.get('f')) == kind and n['a'] and over(n['a'][0]):
            return True
        if n['k'] == 'call' and n.get('f', '').startswith('std::for_each') and kind in own and over({'a': n['a']}):
            return True
    return False


def finish(rule, f, k, q):
    end = f.d['body'].get('el', f.line)
    if q[0] == 'H':
        rule.report('does not release it when an exception leaves the function' if k == 'x' else
                    'does not release it on some path to its end', 0)
    elif q[0] == 'O' and k == 'x':
        rule.report('does not release it when an exception leaves the function', 0)
    elif q[0] == 'M' and k == 'x' and f.kind == 'ctor' and rule.member is None:
        rule.report('does not release it when the constructor fails (the destructor does not run)', 0)
    elif q[0] == 'R' and q[1] is not None and f.kind != 'dtor' and (f.kind, k) != ('ctor', 'x'):
        rule.report('releases it but leaves the dead value in member %s' % q[1], 0)


NAME = {'fd': 'a descriptor', 'new': 'an object', 'new[]': 'an array', 'request': 'a pending name resolution that uses local variables'}


def what(kind, site):
    return NAME.get(kind, 'a resource') + ('' if site is None or site['k'] != 'call' else ' obtained from %s()' %
                                           site.get('f', '').rsplit('::', 1)[-1])


def done(P, ctx, f, site, kind, rule):
    ctx.ob('acquired and released', ctx.at(f, site.get('l')), not rule.bad)
    for w, line in dict.fromkeys(rule.bad):
        ctx.violation('res:%s:%s:%s' % (f.q, site.get('f', kind), w[:40]), '%s acquires %s and %s' %
                      (f.q, what(kind, site), w), f.file, line or site.get('l', 0), None, f.q)


def mem(P, ctx, members, esc, nr):
    n = 0
    for (cls, m, kind), (f0, site) in sorted(members.items(), key=str):
        if cls not in P.records:
            continue
        n += 1
        dt = [f for f in P.fn if f.kind == 'dtor' and f.cls == cls and f.d.get('body')]
        ok = bool(dt)
        for f in dt:
            rule = Own(P, f, None, kind, ctx, esc, None, m, nr)
            for k, exc, rv, q, _ in start(P, ctx, rule, f):
                if q[0] not in ('R', 'T', '-'):
                    rule.report('can leave it unreleased', 0)
            for w, line in dict.fromkeys(rule.bad):
                ok = False
                ctx.violation('mem:%s:%s:%s' % (f.q, m, w[:40]), 'the destructor of %s, which holds %s in %s, %s' %
                              (cls, what(kind, site), m, w), f.file, line or f.line, None, f.q)
        if not dt:
            ctx.violation('nodtor:%s:%s' % (cls, m), '%s keeps %s in %s and has no destructor that releases it' %
                          (cls, what(kind, site), m), f0.file, site.get('l', 0), None, f0.q)
        ctx.ob('the destructor releases the member', '%s::%s' % (cls, m), ok)
        base = m.split('[')[0]
        fs = [f for f in P.fn if f.cls == cls and f.kind not in ('ctor', 'dtor') and f.d.get('body')]
        for f in fs:
            rule = Own(P, f, None, kind, ctx, esc, None, m, nr)
            if not any(True for _ in rule.touch(f)) or f.d.get('acc') == 'private' and \
                    any(f in P.targets(c) for g in fs for c in g.calls() if g is not f):
                # private helpers are followed from their callers
                if not any(rule.direct(None, t) for c in f.calls() for t in P.targets(c)):
                    continue
            for k, exc, rv, q, _ in start(P, ctx, rule, f):
                finish(rule, f, k, q)
            ctx.ob('a member that holds a resource is not lost', ctx.at(f), not rule.bad)
            for w, line in dict.fromkeys(rule.bad):
                ctx.violation('keep:%s:%s:%s' % (f.q, m, w[:40]), '%s (member %s holds %s) %s' % (f.q, m, what(kind, site), w),
                              f.file, line or f.line, None, f.q)
    ctx.need('members that hold a resource', n, 12)


def start(P, ctx, rule, f):
    rule.info = None
    eng = Engine(P, rule, ctx.fx)
    env = {('p', 'this.' + rule.member): RV, ('k', RV): (1, None, frozenset()) if rule.kind == 'fd' else NN}
    out = list(eng.run(f, ('M', rule.member), env))
    ctx.absorb(eng)
    return out
