"""C28: streams pass on every byte exactly once and in order."""
import multiprocessing
import os
import re

from ..cfg import cfg_of
from ..effects import Effects
from ..program import walk
from ..zones import Zones, Z, BIG, SEQ, base_t, isint, isptr, strip, trange
from .C24 import Policy, SCOPE, SKIP, reader, sig, uid

# Output streams that translate the bytes: what is written is not what was given.
TRANSLATE = re.compile(r'::(charsetFilteredOutputStream_\w+|LFToCRLFFilteredOutputStream)$')
# Checked by C16: loops around system calls.
SYSTEM = re.compile(r'^vmime/(platforms/|net/tls/)')
# (bytes that a literal replaces besides its own length, bytes that may be held back at the end)
GAPS = {'vmime::utility::CRLFToLFFilteredOutputStream': (1, 1)}
# The byte of m_previousChar that was not passed on yet, and the one that it has to be followed by not to be.
HELD = {'vmime::utility::CRLFToLFFilteredOutputStream': (13, 10)}
# What is written for a dot that follows a line feed.
STUFF = {'vmime::utility::dotFilteredOutputStream': '..'}
# How many bytes of the source a literal stands for.
LITERAL = {('vmime::utility::dotFilteredOutputStream', '..'): 1}
# A member buffer and the member that says how much of it is filled.
FILL = {'vmime::net::smtp::SMTPChunkingOutputStreamAdapter': ('m_buffer', 'm_bufferSize')}
# Members that hold the last byte seen, for the next piece.
CARRY = re.compile(r'^m_previousChar1?$')
# Input streams with a position: the member moves by what read() and skip() return.
POSITION = {
    'vmime::utility::inputStreamStringAdapter': 'm_pos',
    'vmime::utility::inputStreamByteBufferAdapter': 'm_pos',
    'vmime::utility::seekableInputStreamRegionAdapter': 'm_position',
}
# Not shown on the tree as it is: (function, obligation).
UNDECIDED = []
NOTSINK = ('memset', 'fill', 'find', 'search', 'memcmp', 'strncmp', 'min', 'max', 'distance', 'equal', 'count', 'hash')


class Stream(Policy):
    """Ghost variables: of the source region R, [0, lo) was passed on for sure, [0, hi) at most, [0, end) is to be passed on."""

    def __init__(self, P, callers, f, regions):
        super().__init__(P, callers)
        self.f = f
        self.regions = regions          # None: collect them
        self.readinto = set()
        self.sunk = set()
        self.gap = GAPS.get((f.cls or '').split('<')[0], (0, 0))
        self.fill = FILL.get(f.cls)
        self.stuff = STUFF.get(f.cls) if f.name == 'writeImpl' else None
        self.held = HELD.get(f.cls) if f.name in ('writeImpl', 'flush') else None
        self.pos = POSITION.get(f.cls) if f.name in ('read', 'skip') else None

    @staticmethod
    def g(what, region):
        return 'g:%s@%s' % (what, region[1].replace('.', '_'))

    def setup(self, zz, st):
        for r in self.regions or ():
            for w in ('lo', 'hi', 'end'):
                st.assign(self.g(w, r), (Z, 0))
        if writer(self.f):
            p, n = self.f.params[:2]
            st.assign(self.g('end', ('R', 'Rv%d' % p['d'])), ('v%d' % n['d'], 0))
        if self.fill:
            st.assign('g:fill', ('this.' + self.fill[1], 0))
            st.add(Z, 'g:fill', 0)
        m = POSITION.get(self.f.cls)
        if m:
            st.assign('g:pos', ('this.' + m, 0))
            st.pair('this.m_begin', 'g:pos')
            st.pair('this.m_begin', 'this.' + m)
            # sums of what is returned and the position, before and after
            for d in [p['d'] for p in self.f.params if isint(p['t'])] + [v['d'] for n in self.f.nodes('decl') for v in n['v'] if isint(v['t'])]:
                st.pair('v%d' % d, 'g:pos')
                st.pair('v%d' % d, 'this.' + m)
        if self.held:
            st.assign('g:held', (Z, 1))
        if self.stuff:
            st.assign('g:stuff', (Z, 0))
        for m in self.carry():
            st.assign('g:seen@this_' + m, (Z, 0))

    def carry(self):
        if not writer(self.f):
            return []
        r = self.P.records.get(self.f.cls) or {}
        return [x['n'] for x in r.get('fields', ()) if CARRY.match(x['n'])]

    def entry(self, zz, f, F, st):
        super().entry(zz, f, F, st)
        self.setup(zz, st)

    def pieces(self, zz, e, st, F):
        """(region, offset, count) given to a call, and where they go."""
        if e.get('k') != 'call':
            return
        n = e.get('f', '').rsplit('::', 1)[-1]
        if n in NOTSINK or e.get('op'):
            return
        a = e['a']
        d = self.P.decl.get(e.get('id'))
        if d is not None and reader(d):
            return
        if n in ('memcpy', 'memmove') and len(a) == 3:
            pairs = [(1, 2)]
        elif n == 'copy' and len(a) == 3:
            pairs = [(0, 1)]
        else:
            pairs = [(i, i + 1) for i in range(len(a) - 1)]
        for i, j in pairs:
            x, y = strip(a[i]), strip(a[j])
            if x is None or y is None:
                continue
            if x['k'] != 'str' and not isptr(x.get('t', '')) and not re.search(r'\[\d+\]$', base_t(x.get('t', ''))):
                continue
            if not y.get('t'):
                continue
            p = zz.ptr(x, st, F)
            if p is None:
                continue
            if isint(y.get('t', '')) and not isptr(y.get('t', '')):
                c = zz.val(y, st, F)
            else:
                q = zz.ptr(y, st, F)
                if q is None or q[0][1:] != p[0][1:]:
                    continue
                c = zz.sub({'i': -e['i'] - i - 1, 't': 'long'}, (q[1], q[2]), (p[1], p[2]), st, F)
            dest = None
            if n in ('memcpy', 'memmove', 'copy'):
                dest = zz.ptr(a[0 if n != 'copy' else 2], st, F)
                if dest is not None and dest[0] == p[0]:
                    continue
            yield p, c, dest

    def own(self, p):
        """A place in the buffer that the caller of read() gave."""
        return p is not None and reader(self.f.d) and self.f.params[0].get('d') is not None and p[0] == ('R', 'Rv%d' % self.f.params[0]['d'])

    def eq(self, zz, a, b, st):
        return zz.conj(zz.q(a, b, st), zz.q(b, a, st))

    def before(self, zz, node, e, st, F, truth=None):
        if node.kind == 'asg' and (e.get('op') or '=') == '=':
            self.seen(zz, e['x'], e['y'], st, F)
        if node.kind == 'asg' and e.get('op') == '-' and trange(e.get('t'))[0] == 0 and isint(e.get('t')) and not isptr(e.get('t', '')) and self.regions:
            x, y = zz.val(e['x'], st, F), zz.val(e['y'], st, F)
            zz.check(zz.q(y, x, st), e, F, 'what is left does not wrap around', node)
        if node.kind == 'decl' and node.x.get('init') is not None and not node.x.get('isref'):
            self.seen(zz, {'k': 'ref', 'dk': 'local', 'd': node.x['d'], 't': node.x['t']}, node.x['init'], st, F)
        if node.kind == 'br':
            self.compared(zz, e, truth, st, F)
            for k, d in list(st.defs.items()):
                if d[0] == '+':
                    # k = u + w, and more is known of w now
                    for u, w in ((d[1], d[2]), (d[2], d[1])):
                        st.add(k, u[0], st.ub(w) + u[1])
                        st.add(u[0], k, -st.lb(w) - u[1])
        if node.kind != 'call' or zz.inlinable(e, F) is not None:
            return
        name = e.get('f', '').rsplit('::', 1)[-1]
        if self.held and name == 'flush':
            zz.check(zz.q(('g:held', 0), (Z, 0), st), e, F, 'byte held back written', node)
        if self.fill and name == 'BDAT' and e['a']:
            v = zz.val(e['a'][0], st, F)
            if v is None:
                st.forget('g:bdat')
            else:
                st.assign('g:bdat', v)
        if self.pos and name == 'seek' and len(e['a']) == 1 and F.depth == 0:
            v = zz.val(e['a'][0], st, F)
            if v is None:
                st.forget('g:seek')
            else:
                st.assign('g:seek', v)
        for p, c, dest in list(self.pieces(zz, e, st, F)):
            r = p[0]
            if r[0] == 'L':
                if self.held:
                    st.assign('g:held', (Z, 0))
                text = self.text(e)
                if text is not None and name in ('write', 'sendRaw'):
                    zz.check(self.eq(zz, c, (Z, len(text)), st) if c is not None else None, e, F, 'as many bytes as the literal has', node)
                    if self.stuff == text:
                        st.assign('g:stuff', (Z, 0))
                for s in self.regions or ():
                    h = self.g('hi', s)
                    k = LITERAL.get(((self.f.cls or '').split('<')[0], self.text(e)))
                    if k is not None:
                        st.shift(h, k)
                        st.shift(self.g('lo', s), k)
                        continue
                    if c is not None and c[0] == Z:
                        st.shift(h, c[1] + self.gap[0])
                    else:
                        st.forget(h)
                continue
            self.sunk.add(r[1])
            off = (p[1], p[2])
            if self.own(dest):
                if self.pos:
                    zz.check(self.eq(zz, off, ('g:pos', 0), st), e, F, 'bytes from the position on', node)
                if c is None:
                    st.forget('g:got')
                else:
                    st.assign('g:got', c)
            if self.fill and 'g:bdat' in zz.terms(st) and c is not None and name == 'sendRaw':
                zz.check(self.eq(zz, c, ('g:bdat', 0), st), e, F, 'as many bytes sent as announced', node)
                st.forget('g:bdat')
            if self.fill and dest is not None and dest[0][1] == 'this.' + self.fill[0]:
                zz.check(self.eq(zz, (dest[1], dest[2]), ('g:fill', 0), st), e, F, 'bytes put at the end of the buffer', node)
                self.plus(zz, 'g:fill', (dest[1], dest[2]), c, e, st, F)
            if self.fill and r[1] == 'this.' + self.fill[0]:
                zz.check(zz.conj(self.eq(zz, off, (Z, 0), st), self.eq(zz, c, ('g:fill', 0), st) if c is not None else None), e, F,
                         'the whole buffer sent', node)
                st.assign('g:fill', (Z, 0))
            if r not in (self.regions or ()):
                continue
            if self.fill and not (dest is not None and dest[0][1] == 'this.' + self.fill[0]):
                zz.check(zz.q(('g:fill', 0), (Z, 0), st), e, F, 'the buffer is empty when bytes are passed on without it', node)
            if self.held:
                zz.check(zz.q(('g:held', 0), (Z, 0), st), e, F, 'byte held back written', node)
            lo, hi = self.g('lo', r), self.g('hi', r)
            zz.check(zz.conj(zz.q((lo, 0), off, st), zz.q(off, (hi, 0), st)), e, F, 'next bytes passed on', node)
            if c is not None:
                # no more than there is
                end = (self.g('end', r), 0)
                t = zz.sum({'i': e['i'] + 40000000, 't': 'long'}, off, c, st, F)
                s = min(zz.sumslack(off, c, end, st), st.get(t[0], end[0]) + t[1] - end[1])
                st.forget('%se%d' % (F.pre, e['i'] + 40000000))
                zz.check(zz.slack(s), e, F, 'bytes passed on', node)
            self.plus(zz, lo, off, c, e, st, F)
            st.assign(hi, (lo, 0))

    def plus(self, zz, name, off, c, e, st, F):
        """name := off + c"""
        if c is None:
            st.forget(name)
            return
        v = zz.sum({'i': e['i'] + 10000000, 't': 'long'}, off, c, st, F)
        if v[0] == name:
            st.shift(name, v[1])
        else:
            st.assign(name, v)

    def seen(self, zz, x, y, st, F):
        """A byte variable gets a byte of the source."""
        t = base_t(x.get('t', ''))
        if t not in ('unsigned char', 'char', 'signed char') or not self.regions:
            return
        name = zz.path(strip(x), F)
        if name is None:
            return
        gx = 'g:seen@' + name.replace('.', '_')
        y = strip(y)
        while y is not None and y['k'] == 'cast':
            y = strip(y['e'])
        v = None
        if y is None:
            pass
        elif y['k'] in ('un', 'idx'):
            v = self.byte(zz, y, st, F)
        elif y['k'] in ('ref', 'mem'):
            p = zz.path(y, F)
            g = 'g:seen@' + p.replace('.', '_') if p else None
            if g and g in zz.terms(st):
                st.assign(gx, (g, 0))
                return
        if v is not None and v[0] in self.regions:
            st.assign(gx, (v[1], v[2] + 1))
        elif y is not None and y.get('cv') is not None:
            # a byte of the source is known to be this one
            g = 'g:is%d' % y['cv']
            if g in zz.terms(st):
                st.assign(gx, (g, 0))
                return
            st.forget(gx)
        else:
            st.forget(gx)

    def compared(self, zz, e, truth, st, F):
        """Remembers where a byte that was compared comes from."""
        e = strip(e)
        while e is not None and e.get('k') == 'un' and e['op'] == '!':
            e, truth = strip(e['e']), not truth
        if e is None or e.get('k') != 'bin' or e['op'] not in ('==', '!=') or not (self.regions or self.held):
            return
        if truth is None:
            return
        if self.stuff and any(self.plain(y)['k'] == 'ref' and base_t(self.plain(y).get('t', '')) == 'unsigned char' and self.plain(o).get('cv') == 10
                              for y, o in ((e['x'], e['y']), (e['y'], e['x']))):
            zz.check(zz.q(('g:stuff', 0), (Z, 0), st), e, F, 'dot at the start of a line doubled', F.cfg.exit)
            st.assign('g:stuff', (Z, int(truth == (e['op'] == '=='))))
        if self.held and truth == (e['op'] == '!=') and any(CARRY.match((zz.path(self.plain(y), F) or '').split('.')[-1]) and self.plain(o).get('cv') == self.held[0]
                                                            for y, o in ((e['x'], e['y']), (e['y'], e['x']))):
            st.assign('g:held', (Z, 0))
        if truth != (e['op'] == '=='):
            return
        for y, o in ((e['x'], e['y']), (e['y'], e['x'])):
            y, o = strip(y), strip(o)
            while y['k'] == 'cast':
                y = strip(y['e'])
            v = self.byte(zz, y, st, F)
            if v is not None and o.get('cv') is not None and v[0] in (self.regions or ()):
                st.assign('g:is%d' % o['cv'], (v[1], v[2] + 1))
                if self.held and o['cv'] == self.held[1] and self.eq(zz, (v[1], v[2]), (Z, 0), st) == 1:
                    st.assign('g:held', (Z, 0))

    @staticmethod
    def plain(y):
        y = strip(y)
        while y['k'] == 'cast':
            y = strip(y['e'])
        return y

    @staticmethod
    def text(e):
        """The literal that a call is given."""
        return next((x['s'] for a in e['a'] for x in walk(a) if x.get('k') == 'str'), None)

    def byte(self, zz, y, st, F):
        """The place that a byte is read from."""
        if y['k'] == 'un' and y['op'] == '*':
            return zz.ptr(y['e'], st, F)
        if y['k'] == 'idx':
            b, i = zz.ptr(y['b'], st, F), zz.val(y['ix'], st, F)
            return zz.padd({'i': -y['i']}, b, i, st, F) if b is not None and i is not None else None
        return None

    def call(self, zz, node, e, res, st, F):
        d = self.P.decl.get(e.get('id'))
        r = own = None
        if d is not None and reader(d) and len(e['a']) == 2 and strip(e['a'][0]) is not None:
            p = zz.ptr(strip(e['a'][0]), st, F)
            if p is not None:
                r = p[0]
                self.readinto.add(r[1])
                own = self.own(p)
                if own and self.pos:
                    t = zz.sum({'i': e['i'] + 30000000, 't': 'long'}, ('this.m_begin', 0), ('g:pos', 0), st, F)
                    zz.check(self.eq(zz, ('g:seek', 0), t, st) if 'g:seek' in zz.terms(st) else 0, e, F, 'bytes from the position on', node)
                if r in (self.regions or ()) and not own:
                    zz.check(zz.q((self.g('end', r), 0), (self.g('hi', r), self.gap[1]), st), e, F, 'bytes passed on before the next ones are read', node)
                    off = (p[1], p[2])
                    zz.check(self.eq(zz, off, (Z, 0), st), e, F, 'start of the buffer', node)
        st = super().call(zz, node, e, res, st, F)
        if r is not None and st is not None and r in (self.regions or ()):
            for w in ('lo', 'hi'):
                st.assign(self.g(w, r), (Z, 0))
            st.assign(self.g('end', r), (res, 0))
            st.add(Z, self.g('end', r), 0)
        if own and st is not None:
            st.assign('g:got', (res, 0))
        return st

    def at_return(self, zz, node, e, st, F):
        m = POSITION.get(self.f.cls)
        if F.depth == 0 and m and e is not None and self.f.name in ('read', 'skip'):
            v = zz.val(e, st, F)
            ok = None
            if v is not None:
                st.saturate()
                t = zz.sum({'i': e['i'] + 20000000, 't': 'long'}, v, ('g:pos', 0), st, F)
                ok = self.eq(zz, t, ('this.' + m, 0), st)
            zz.check(ok, e, F, 'the position moves by what was returned', node)
            if self.f.name == 'read':
                zz.check(self.eq(zz, v, ('g:got', 0), st) if v is not None else None, e, F, 'as many bytes returned as read', node)

    def keep(self, zz, st, F):
        out = super().keep(zz, st, F)
        m = POSITION.get(self.f.cls)
        if m and self.eq(zz, ('this.' + m, 0), ('g:pos', 0), st) == 1:
            # the stream below does not use the stream that reads from it
            out += [(('this.' + m, 0), ('g:pos', 0)), (('g:pos', 0), ('this.' + m, 0))]
        return out

    def stored(self, *a):
        pass

    def at_exit(self, zz, f, st):
        if st is None:
            return
        F = zz.frame
        for r in self.regions or ():
            if reader(f.d) and r == ('R', 'Rv%s' % f.params[0].get('d')):
                continue
            end = (self.g('end', r), 0)
            zz.check(zz.q(end, (self.g('hi', r), self.gap[1]), st), f.d, F, 'everything passed on', F.cfg.exit)
            if writer(f):
                for m in self.carry():
                    zz.check(self.eq(zz, ('g:seen@this_' + m, 0), end, st), f.d, F, 'last byte kept in ' + m, F.cfg.exit)
        if self.stuff:
            zz.check(zz.q(('g:stuff', 0), (Z, 0), st), f.d, F, 'dot at the start of a line doubled', F.cfg.exit)
        if self.fill and f.kind != 'ctor':
            zz.check(self.eq(zz, ('this.' + self.fill[1], 0), ('g:fill', 0), st), f.d, F, 'the buffer is filled up to ' + self.fill[1], F.cfg.exit)


def writer(f):
    return f.name == 'writeImpl' and len(f.params) == 2 and 'd' in f.params[0] and 'd' in f.params[1] and sig(f.params)[:1] == [('buf', 0, 1)]


def analyse(i):
    P, fx, callers, roots = JOB
    f = roots[i]
    out = {}
    regions = set()
    for phase in (0, 1):
        pol = Stream(P, callers, f, None if phase == 0 else regions)
        zz = Zones(P, fx, pol)
        zz.hook = pol.before
        if phase == 0:
            zz.report = lambda *a: None
            names = []
            oc = pol.call

            def call(zz_, node, e, res, st, F, oc=oc):
                d = P.decl.get(e.get('id'))
                if d is not None and reader(d) and len(e['a']) == 2 and strip(e['a'][0]) is not None:
                    p = zz_.ptr(strip(e['a'][0]), st, F)
                    if p is not None:
                        regions.add(p[0])
                return oc(zz_, node, e, res, st, F)
            pol.call = call
            zz.run(f)
            regions = {r for r in regions if r[1] in pol.sunk}
            if writer(f):
                regions.add(('R', 'Rv%d' % f.params[0]['d']))
            if not regions and not pol.fill and not pol.held and not (f.cls in POSITION and f.name in ('read', 'skip')):
                return out
            continue

        def rep(F, e, ok, text, node):
            if not MINE.match(text):
                return
            k = (uid(F.f), e.get('i'), text)
            o = out.get(k)
            out[k] = (ok if o is None else Zones.conj(o[0], ok), uid(F.f), text, node.line, uid(f))
        zz.report = rep
        pol.at_exit(zz, f, zz.run(f))
    return out


MINE = re.compile(r'next bytes passed on|bytes passed on|bytes passed on before|everything passed on|start of the buffer|the position moves|'
                  r'last byte kept|what is left|the buffer is empty|dot at|byte held back|bytes from the position|as many bytes|bytes put at the end|the whole buffer sent|the buffer is filled')


def roots_of(P, pol):
    out = []
    for f in P.fn:
        if not f.d.get('body') or not SCOPE.match(f.file) or SKIP.match(f.file) or SYSTEM.match(f.file):
            continue
        if TRANSLATE.search(f.cls or ''):
            continue
        reads = any(c['k'] == 'call' and P.decl.get(c.get('id')) is not None and reader(P.decl[c['id']]) for c in f.nodes('call'))
        if writer(f) or reads or f.cls in HELD and f.name == 'flush' or f.cls in FILL and not pol.helper(f) and f.kind != 'ctor' or f.cls in POSITION and f.name in ('read', 'skip'):
            out.append(f)
    return out


# An encoder is given a stream of data that is there: nothing read is the end of it.
ENCODER = re.compile(r'^vmime/utility/encoder/')
# The lines of its input say how long they are.
LINES = re.compile(r'::uuEncoder::decode$')


def zero(e):
    """Is the condition whether something is 0?"""
    e = strip(e)
    if e is None or e.get('k') != 'bin':
        return True
    return any(strip(y) is not None and strip(y).get('cv') in (0, 1) for y in (e['x'], e['y']))


def short(P, f):
    """(read, condition, ends) of the conditions on what a read in a loop has returned: the loop ends there, or not."""
    cfg = cfg_of(f)
    nodes = cfg.nodes

    def closure(i):
        seen, work = set(), [i]
        while work:
            for lab, j in nodes[work.pop()].succ:
                if lab != 'X' and j not in seen:
                    seen.add(j)
                    work.append(j)
        return seen
    for r in nodes:
        if r.kind != 'call' or r.e.get('k') != 'call' or len(r.e['a']) != 2:
            continue
        d = P.decl.get(r.e.get('id'))
        if d is None or not reader(d):
            continue
        after = closure(r.i)
        if r.i not in after:
            continue
        names = set()
        for n in nodes:
            if n.kind == 'decl' and any(x is r.e or x.get('i') == r.e['i'] for x in walk(n.x.get('init') or {}) if x.get('k') == 'call'):
                names.add(n.x['d'])
            if n.kind == 'asg' and (n.e.get('op') or '=') == '=':
                y = strip(n.e['y'])
                while y is not None and y['k'] == 'cast':
                    y = strip(y['e'])
                if y is not None and y.get('i') == r.e['i'] and strip(n.e['x']).get('k') == 'ref':
                    names.add(strip(n.e['x']).get('d'))
        for b in nodes:
            if b.kind != 'br' or b.i not in after or b.e is None or r.i not in closure(b.i):
                continue
            if not any(x.get('k') == 'ref' and x.get('d') in names for x in walk(b.e)) and not any(x.get('i') == r.e['i'] for x in walk(b.e) if x.get('k') == 'call'):
                continue
            if ENCODER.match(f.file) and (zero(b.e) or LINES.search(f.q)):
                continue
            out = [j for lab, j in b.succ if lab != 'X' and j != r.i and r.i not in closure(j)]
            yield r, b, any(j == cfg.exit.i or cfg.exit.i in closure(j) for j in out)


def check(P, ctx):
    fx = Effects(P)
    callers = {}
    for f in P.fn:
        for c in f.nodes('call', 'ctor'):
            for t in P.targets(c):
                callers.setdefault(t, set()).add(f)
    pol = Policy(P, callers)
    roots = roots_of(P, pol)
    fx.mods(roots[0])
    global JOB
    JOB = (P, fx, callers, roots)
    idx = {uid(f): f for f in P.fn}
    res = {}
    with multiprocessing.get_context('fork').Pool(os.cpu_count() or 1) as pool:
        for rs in pool.imap_unordered(analyse, range(len(roots)), chunksize=1):
            for k, (ok, fid, text, line, root) in rs.items():
                o = res.get(k)
                res[k] = (ok if o is None else Zones.conj(o[0], ok), idx[fid], text, line, idx[root])
    ctx.rule('Of the bytes a stream is given to write, or that a loop has read, each piece handed on starts where the last one ended, and '
             'when the function returns (or reads more) all of them have been handed on. Ghost positions and the positions of the program '
             'are related by difference constraints over the control flow.')
    und = 0
    for (fid, eid, text), (ok, f, _, line, root) in sorted(res.items(), key=lambda x: (x[1][1].file, x[1][3], str(x[0][1]))):
        if ok is None and any(re.search(q, f.q) and re.search(t, text) for q, t in UNDECIDED):
            und += 1
            continue
        ctx.ob(text, ctx.at(f, line), ok == 1)
        ctx.funcs.add(f.sig())
        if ok != 1:
            ctx.violation('stream:%s:%s' % (f.q, text), '%s: %s: not on every path' % (f.q, text), f.file, line, None, f.q)
    ctx.rule('A loop that copies from a stream does not end because a read returned fewer bytes than asked, or none: only eof() ends a stream.')
    for f in roots:
        for r, b, ends in short(P, f):
            ctx.ob('a short read does not end the loop', ctx.at(f, b.line), not ends)
            if ends:
                ctx.violation('stream:%s:short' % f.q, '%s: the loop ends on the number of bytes that one read returned, but only eof() is the end of a stream' % f.q,
                              f.file, b.line, None, f.q)
    ctx.need('positions shown', sum(1 for r in res.values() if r[0] == 1), 10)
    ctx.need('streams and copy loops analysed', len({r[4] for r in res.values()}), 8)
    ctx.count('not decided', und)
