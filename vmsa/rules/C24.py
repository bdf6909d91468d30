"""C24: parsers and decoders access memory in bounds."""
import json
import multiprocessing
import os
import re

from ..effects import Effects
from ..zones import Zones, State, arraylen, isint, isptr, base_t, Z, SEQ, STRT, strip, BIG

SCOPE = re.compile(r'^vmime/')
SKIP = re.compile(r'^vmime/(platforms/|charsetConverter_icu|security/digest/sha1/sha1MessageDigest\.cpp)')
# The positions in these depend on invariants of the object or on sums, which difference constraints cannot express.
UNDECIDED = {
    ('utility::charsetFilteredOutputStream_iconv::writeImpl', ''): 'what iconv() consumed',
    ('net::imap::helpers::tokenVectorToken::generate', 'index'): 'the vector is not empty by construction',
    ('net::imap::IMAPTag::generate', 'index'): 'the string is resized by the constructor',
    ('net::imap::IMAPUtils::toModifiedUTF7', 'index'): 'sum of the position and the remaining count, in steps of more than one',
    ('net::smtp::SMTPResponse::getCode', 'index'): 'a response that was read has a line',
    ('net::smtp::SMTPResponse::getText', 'index'): 'a response that was read has a line',
    ('security::digest::md5::md5MessageDigest::update', ''): 'position in the member buffer modulo 64',
    ('security::digest::md5::md5MessageDigest::finalize', ''): 'position in the member buffer modulo 64',
    ('utility::encoder::uuEncoder::decode', 'index'): 'positions that are multiples of four and three',
    ('utility::parserInputStreamAdapter::findNext', 'memcmp'): 'the end of the search is before the end of the buffer by the length of the token',
    ('utility::stopSequenceFilteredInputStream<3>::read', 'pointer access'): 'bytes moved behind a prefix of the sequence',
    ('utility::stopSequenceFilteredInputStream<5>::read', 'pointer access'): 'bytes moved behind a prefix of the sequence',
    ('utility::stopSequenceFilteredInputStream<3>::read', 'read() result'): 'bytes moved behind a prefix of the sequence',
    ('utility::stopSequenceFilteredInputStream<5>::read', 'read() result'): 'bytes moved behind a prefix of the sequence',
    ('utility::seekableInputStreamRegionAdapter::read', 'invariant'): 'what the other stream may do to this one',
    ('word::parseNext', 'new position'): 'where the search for ?= ended is known from the characters there',
    ('word::parseNext', 'range passed to vmime::word::parseWithState'): 'where the search for ?= ended is known from the characters there',
    ('word::parseWithState', 'new position'): 'the loop ends at the end or at two characters inside',
    ('utility::stringUtils::isStringEqualNoCase', ''): 'sum of the position and the remaining count',
}
# Invariants of the objects of a class: established by the constructors, kept by every method, available in each:
# (x, y) for x <= y with x a member and y a member, '#member' (its length) or a constant; (x, 'N') for the template argument;
# ('*', pointer member, length member) for a pointer to that many elements.
INVARIANTS = {
    'vmime::utility::inputStreamStringAdapter': [('m_begin', 'm_pos'), ('m_pos', 'm_end'), ('m_end', '#m_buffer')],
    'vmime::utility::inputStreamByteBufferAdapter': [('m_pos', 'm_length'), ('*', 'm_buffer', 'm_length')],
    'vmime::utility::seekableInputStreamRegionAdapter': [('m_position', 'm_length')],
    'vmime::utility::stopSequenceFilteredInputStream': [('m_found', 'N')],
    'vmime::net::smtp::SMTPChunkingOutputStreamAdapter': [('m_bufferSize', 'sizeof m_buffer')],
    'vmime::utility::charsetFilteredOutputStream_iconv': [('m_unconvCount', 'sizeof m_unconvBuffer')],
}
# A result of true tells that the part (parameters begin, end) is not empty.
NONEMPTY = {'vmime::parserHelpers::findEOL': (1, 2)}
SIZE = ('unsigned long',)
# positions, strings, containers, buffers and iterators
POS = re.compile(r'(^|\s)(unsigned |signed )?(long|int|short|char)\b|basic_string<|normal_iterator|vector<|certificateChain|\*$')
CH = re.compile(r'^(const )?(unsigned char|char|void) \*$')


def sig(params):
    """Contracts of a parameter list: ('range', S, a, b), ('iters', a, b), ('buf', p, n)."""
    out = []
    ts = [p['t'].strip() for p in params]
    stream = any('parserInputStreamAdapter' in t for t in ts)       # the positions are positions in the stream
    for i, t in enumerate(ts):
        n1 = base_t(ts[i + 1]) if i + 1 < len(ts) else ''
        n2 = base_t(ts[i + 2]) if i + 2 < len(ts) else ''
        if not stream and STRT.match(base_t(t)) and t.endswith('&') and n1 in SIZE and n2 in SIZE and not ts[i + 1].endswith('&') and not ts[i + 2].endswith('&'):
            out.append(('range', i, i + 1, i + 2))
        elif base_t(t).startswith('__gnu_cxx::__normal_iterator') and base_t(t) == n1 and not t.endswith('&') and not ts[i + 1].endswith('&'):
            out.append(('iters', i, i + 1))
        elif CH.match(base_t(t) if False else t.replace('*const', '*').replace('* const', '*').strip()) and n1 in SIZE:
            out.append(('buf', i, i + 1))
    return out


def outpos(params):
    return [i for i, p in enumerate(params) if p['t'].strip() in ('unsigned long *', 'unsigned long *const')]


def reader(f):
    """read(data, count): returns at most count."""
    return f['rt'] == 'unsigned long' and f['q'].rsplit('::', 1)[-1] in ('read', 'readImpl', 'receiveRaw', 'readSome') and \
        len(f['p']) == 2 and sig(f['p'])[:1] == [('buf', 0, 1)]


class Policy:
    def __init__(self, P, callers):
        self.P = P
        self.callers = callers
        self.calls = 0

    def entry(self, zz, f, F, st):
        self.range = None
        for c in sig(f.params):
            ps = f.params
            n = lambda i: 'v%d' % ps[i]['d']
            if 'd' not in ps[c[1]] or 'd' not in ps[c[2]] or len(c) > 3 and 'd' not in ps[c[3]]:
                continue
            if c[0] == 'range':
                s = '#' + n(c[1])
                st.add(Z, s, 0)
                st.add(s, Z, BIG)
                st.add(Z, n(c[2]), 0)
                st.add(n(c[2]), n(c[3]), 0)
                st.add(n(c[3]), s, 0)
                if outpos(ps) or any(base_t(x['t']) == 'vmime::parsingContext' for x in ps):
                    zz.limits[n(c[1])] = (n(c[2]), n(c[3]))
                    self.range = (n(c[2]), n(c[3]))
            elif c[0] == 'iters':
                r = ('I', 'R' + n(c[1]))
                s = '#' + r[1]
                st.add(Z, s, 0)
                st.add(s, Z, BIG)
                a, b = 'o:' + n(c[1]), 'o:' + n(c[2])
                st.base[a] = st.base[b] = r
                st.add(Z, a, 0)
                st.add(a, b, 0)
                st.add(b, s, 0)
            elif c[0] == 'buf':
                r = ('R', 'R' + n(c[1]))
                s = '#' + r[1]
                a = 'o:' + n(c[1])
                st.base[a] = r
                st.add(a, Z, 0)
                st.add(Z, a, 0)
                st.add(n(c[2]), s, 0)
                st.add(Z, s, 0)
                st.add(s, Z, BIG)

        for inv in self.invariants(f):
            if inv[0] == '*':
                o, r = 'o:this.' + inv[1], ('R', 'R' + inv[1])
                st.base[o] = r
                st.add(o, Z, 0)
                st.add(Z, o, 0)
                st.add('this.' + inv[2], '#' + r[1], 0)
                st.add('#' + r[1], Z, BIG)
                continue
            if f.kind == 'ctor':
                continue
            x, y = self.inv(f, inv)
            st.add(Z, x[0], 0)
            st.addle((x[0], 0), y)

    def invariants(self, f):
        if not f.cls or f.d.get('static') or f.kind == 'dtor':
            return ()
        return INVARIANTS.get(f.cls.split('<')[0], ())

    def keep(self, zz, st, F):
        """The invariants of the object that hold before a call still hold after it."""
        if F.depth:
            return []
        out = []
        for inv in self.invariants(F.f):
            if inv[0] != '*':
                x, y = self.inv(F.f, inv)
                if zz.q(x, y, st) == 1:
                    out += [(x, y), ((Z, 0), x)]
        return out

    def inv(self, f, inv):
        """The two sides of an invariant as terms."""
        y = inv[1]
        if y == 'N':
            y = (Z, int(re.search(r'<(\d+)', f.q).group(1)))
        elif y.startswith('sizeof '):
            y = (Z, next((arraylen(x['t']) for x in self.P.records[f.cls]['fields'] if x['n'] == y[7:]), 0))
        elif y[0] == '#':
            y = ('#this.' + y[1:], 0)
        else:
            y = ('this.' + y, 0)
        return ('this.' + inv[0], 0), y

    def at_exit(self, zz, f, st):
        for inv in self.invariants(f):
            if inv[0] == '*' or st is None:
                continue
            x, y = self.inv(f, inv)
            # the invariant has to be shown, not only not to be refuted
            zz.check(zz.q(x, y, st) or 0, f.d, zz.frame, 'invariant %s <= %s of %s' % (inv[0], inv[1], f.cls), zz.frame.cfg.exit)

    def at_return(self, zz, node, e, st, F):
        if F.depth == 0 and F.f.name == 'getBlockSize' and e is not None and isint(F.f.d['rt']):
            zz.check(zz.q((Z, 1), zz.val(e, st, F), st), e, F, 'block size', node)
        if F.depth == 0 and reader(F.f.d) and e is not None:
            v = zz.val(e, st, F)
            d = F.f.params[1].get('d')
            n0 = 'v%d' % d if d is not None else None
            zz.check(zz.q(v, (n0, 0), st) if n0 is not None else None, e, F, 'read() result', node)
        if F.depth == 0 and F.f.q in NONEMPTY and e is not None and strip(e).get('cv', 1) != 0:
            x, y = ('v%d' % F.f.params[i]['d'] for i in NONEMPTY[F.f.q])
            zz.check(zz.q((x, 1), (y, 0), st), e, F, 'result of ' + F.f.name, node)

    def stored(self, zz, e, name, v, st, F, node):
        """*newPosition = v"""
        if self.range is None or F.depth:
            return
        if any(name == 'v%s.*' % F.f.params[i].get('d') for i in outpos(F.f.params)):
            a, b = self.range
            zz.check(zz.conj(zz.q((a, 0), v, st), zz.q(v, (b, 0), st)), e, F, 'new position', node)

    def call(self, zz, node, e, res, st, F):
        d = self.P.decl.get(e.get('id'))
        if d is None:
            return None
        cs = sig(d['p'])
        a = e['a']
        rng = None
        for c in cs:
            if max(c[1:]) >= len(a):
                continue
            x = [strip(a[i]) for i in c[1:]]
            if any(y is None for y in x):
                continue
            if c[0] == 'range':
                if zz.inlinable(e, F) is not None:
                    continue
                if a[c[3]]['k'] == 'defarg' or a[c[2]]['k'] == 'defarg':
                    continue
                s = zz.seq(x[0], st, F)
                u, v = zz.val(x[1], st, F), zz.val(x[2], st, F)
                ok = None if s is None or u is None or v is None else zz.conj(zz.q((Z, 0), u, st), zz.q(u, v, st), zz.q(v, ('#' + s, 0), st))
                zz.check(ok, e, F, 'range passed to ' + d['q'], node)
                rng = (u, v)
            elif c[0] == 'iters':
                zz.check_range(node, e, x[0], x[1], st, F)
            elif c[0] == 'buf' and e.get('in'):
                p, n = zz.ptr(x[0], st, F), zz.val(x[1], st, F)
                zz.check(zz.inbounds(p, st, n), e, F, 'buffer passed to ' + d['q'], node)
        if d['q'].endswith('::getBlockSize') and not a:
            st = zz.havoc(e, st, F)
            st.assign(res, None, (1, BIG))
            return st
        post = reader(d)
        np = [i for i in outpos(d['p']) if i < len(a)] if rng else []
        if not post and not np:
            return None
        pre = None
        if post:
            n = zz.val(a[1], st, F)
            if n is not None:
                pre = 'tmpcount%d' % e['i']
                st.assign(pre, n)
        if np and None not in rng:
            st.assign('tmpa', rng[0])
            st.assign('tmpb', rng[1])
        st = zz.havoc(e, st, F)
        zz.clear_res(res, e, st)
        if isint(e.get('t')):
            st.assign(res, None, (0, float('inf')))
        if pre:
            st.add(res, pre, 0)
            st.forget(pre)
        if np and None not in rng and d['q'] in NONEMPTY:
            x, y = (rng[i - 1] for i in NONEMPTY[d['q']])
            st.flag[res] = (((x[0], y[0], y[1] - x[1] - 1),), ())
        if np and None not in rng:
            for i in np:
                x = strip(a[i])
                p = zz.path(x['e'], F) if x['k'] == 'un' and x['op'] == '&' else None
                if p is None and x['k'] in ('ref', 'mem'):
                    q = zz.path(x, F)
                    p = F.bind.get(q, q + '.*') if q else None
                if p is not None:
                    st.forget(p)
                    st.add('tmpa', p, 0)
                    st.add(p, 'tmpb', 0)
            st.forget('tmpa')
            st.forget('tmpb')
        return st

    def after(self, zz, node, e, res, st, F):
        pass

    def simple(self, f):
        """A function that only returns an expression."""
        b = (f.d.get('body') or {}).get('b')
        return f.kind not in ('ctor', 'dtor') and isinstance(b, list) and len(b) == 1 and b[0]['k'] == 'ret' and \
            not sig(f.params)

    def helper(self, f):
        """Private and file-local functions are evaluated in their callers."""
        return f.d.get('body') is not None and not f.d.get('virt') and (f.d.get('acc') == 'private' or f.d.get('local')) and \
            f.kind not in ('ctor', 'dtor') and f in self.callers and self.positional(f) and not self.contract(f)

    def contract(self, f):
        """Calls use the contract of the function (see call())."""
        return reader(f.d) or bool(outpos(f.params)) and any(c[0] == 'range' for c in sig(f.params))

    def positional(self, f):
        """The positions used in the function come from the caller."""
        return any(POS.search(p['t']) for p in f.params)


def uid(f):
    """The two builds have different functions of the same name."""
    return f.id + '@' + f.file


def analyse(i):
    P, fx, pol, roots = JOB
    f = roots[i]
    zz = Zones(P, fx, pol)
    res = {}

    def rep(F, e, ok, text, node):
        k = (uid(F.f), e.get('i'), text)
        o = res.get(k)
        res[k] = (ok if o is None else Zones.conj(o[0], ok), uid(F.f), e.get('l'), text, node.line, uid(f))
    zz.report = rep
    pol.at_exit(zz, f, zz.run(f))
    return res, {uid(h) for h in zz.inlined}


def results(P):
    """The obligations of the whole program: {key: (0/1/None, function, expression, text, line, root)}."""
    fx = Effects(P)
    callers = {}
    for f in P.fn:
        for c in f.nodes('call', 'ctor'):
            for t in P.targets(c):
                callers.setdefault(t, set()).add(f)
    pol = Policy(P, callers)
    only = os.environ.get('C24_ONLY')
    roots = [f for f in P.fn if f.d.get('body') and SCOPE.match(f.file) and not SKIP.match(f.file) and not pol.helper(f) and
             not (only and not re.search(only, f.q))]
    roots.sort(key=lambda f: -len(f.cfg_size()) if hasattr(f, 'cfg_size') else -len(json.dumps(f.d)))
    fx.mods(roots[0])
    n = os.cpu_count() or 1
    res = {}
    idx = {uid(f): f for f in P.fn}
    done = set()
    total = 0

    def run(roots):
        global JOB
        JOB = (P, fx, pol, roots)
        with multiprocessing.get_context('fork').Pool(n) as pool:
            for rs, inl in pool.imap_unordered(analyse, range(len(roots)), chunksize=1):
                done.update(inl)
                merge(rs)

    def merge(rs):
        for k, (ok, fid, e, text, line, root) in rs.items():
            o = res.get(k)
            res[k] = (ok if o is None else Zones.conj(o[0], ok), idx[fid], e, text, line, idx[root] if o is None or ok == 0 or ok is None and o[0] != 0 else o[5])

    run(roots)
    # helpers that were evaluated in no caller
    rest = [] if only else [f for f in P.fn if f.d.get('body') and SCOPE.match(f.file) and not SKIP.match(f.file) and pol.helper(f) and uid(f) not in done]
    if rest:
        run(rest)
    return res, len(roots) + len(rest)


PART = ('character outside of the part', 'new position', 'result of ', 'range passed')


def undecided(ok, f, text, root):
    return ok is None or ok == 0 and any((f.q == 'vmime::' + q or root.q == 'vmime::' + q and not t) and text.startswith(t) for q, t in UNDECIDED)


def check(P, ctx):
    res, roots = results(P)
    res = {k: r for k, r in res.items() if not r[3].startswith(PART[:2])}
    ctx.rule('Every access to a string, container, array or buffer, every range and every (pointer, count) pair handed to another '
             'function is inside the object: difference constraints between positions, sizes and constants, computed over the '
             'control flow of each function (helpers in the context of their callers), prove 0 <= position < size. A parser gets '
             '0 <= position <= end <= size of the buffer, a reader returns at most the count it was asked for, and both are '
             'obligations where they are called or implemented. An access is reported when the position and the size are related '
             'and the relation allows a position outside; accesses of which nothing is known are counted as not decided.')
    und = 0
    for (fid, eid, text), (ok, f, l, _, line, root) in sorted(res.items(), key=lambda x: (x[1][1].file, x[1][4], x[0][1] or 0)):
        if undecided(ok, f, text, root):
            und += 1
            continue
        ctx.ob(text, ctx.at(f, line), ok == 1)
        ctx.funcs.add(f.sig())
        if ok == 0:
            ctx.violation('bounds:%s:%s' % (f.q, text), '%s: %s: the position may be outside (%s)' % (
                f.q, text, 'analysed from ' + root.q if root is not f else 'by a known distance'), f.file, line, None, f.q)
    ctx.need('accesses proved in bounds', sum(1 for r in res.values() if r[0] == 1), 500)
    ctx.need('functions analysed', roots, 1500)
    ctx.count('accesses not decided', und)
