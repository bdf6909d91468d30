"""C05: what the application passes cannot change the structure of a command."""
import re

from ..engine import Engine, path_of
from ..mustpass import MustPass, G
from ..taint import Taint, NUM, lab, U
from ..program import walk
from .C16 import strip

TXT = G('text')
NPOS = 18446744073709551615
SEND = re.compile(r'^vmime::net::socket::(send|sendRaw)$')
PROTO = re.compile(r'^vmime/net/(imap|pop3|smtp)/')
FREE = (NPOS, NPOS, frozenset())
FOUND = (0, NPOS - 1, frozenset())


def check(P, ctx):
    ctx.rule('(1) Every text a protocol service writes to its socket is a literal, a base64 text, message data, or the member '
             'of a command object; (2) no path of a constructor of a command class ends normally unless the text was searched '
             'for CR and LF and contained none; (3) forward data flow: strings of the public IMAP interface reach the text of '
             'an IMAP command through the quoting function only; the quoting function escapes " and \\ and never returns '
             'text with special characters unquoted; (4) what is passed to sendmail follows an option or "--".')
    lines(P, ctx)
    quoting(P, ctx)
    quoter(P, ctx)
    sendmail(P, ctx)


# (1), (2) --------------------------------------------------------------------------------------------
def parts(e):
    """Concatenated parts of a string expression."""
    e = strip(e)
    if e is None:
        return
    if e['k'] == 'ctor' and len(e['a']) >= 1 and 'string' in e.get('t', ''):
        yield from parts(e['a'][0])
    elif e['k'] == 'call' and e.get('op') == '+':
        for x in ([e['o']] if e.get('o') is not None else []) + e['a']:
            yield from parts(x)
    elif e['k'] == 'call' and e.get('f', '').endswith(('::bytesFromString', '::c_str', '::data')):
        yield from parts(e['a'][0] if e['a'] else e.get('o'))
    else:
        yield e


def defs(f, d):
    for n in f.nodes('decl'):
        for v in n['v']:
            if v['d'] == d and v.get('init') is not None:
                yield v['init']
    for n in f.nodes('asg'):
        if n['x']['k'] == 'ref' and n['x'].get('d') == d:
            yield n['y']
    for c in f.calls():
        if c['k'] == 'call' and c.get('op') in ('=', '+=') and c.get('o') is not None and path_of(c['o']) == 'v%d' % d:
            yield from c['a']


def member_of(P, e):
    """(class, member) a member expression or a plain getter call yields."""
    if e['k'] == 'mem':
        return e['q'].rsplit('::', 1)
    if e['k'] == 'call':
        for t in P.targets(e):
            for r in t.nodes('ret'):
                x = strip(r.get('e'))
                while x is not None and x['k'] == 'ctor' and len(x['a']) == 1:
                    x = strip(x['a'][0])
                if x is not None and x['k'] == 'mem':
                    return x['q'].rsplit('::', 1)
    return None


def lines(P, ctx):
    fs = [f for f in P.fn if PROTO.match(f.file) and f.d.get('body')]
    need, n = {}, 0

    def text(f, e, at, seen, line):
        """Obligations of a text that is sent."""
        e = strip(e)
        if e['k'] in ('str', 'chr') or e.get('cv') is not None:
            return True
        if e['k'] == 'call' and e.get('f', '').endswith('::encodeB64'):
            return True
        if e['k'] == 'call' and e.get('f', '').endswith(('::operator string', '::operator basic_string')) or \
                'IMAPTag' in e.get('t', '') or e['k'] == 'call' and 'IMAPTag' in (e.get('ot') or ''):
            return True
        if e['k'] == 'ref' and e.get('dk') == 'local':
            if e['d'] in seen:
                return True
            ds = list(defs(f, e['d']))
            return bool(ds) and all(text(f, p, at, seen | {e['d']}, line) for x in ds for p in parts(x))
        m = member_of(P, e)
        if m is not None and m[0] in P.records and not NUM.match(e.get('t', '')):
            need.setdefault(tuple(m), at)
            return True
        if e['k'] == 'ref' and e.get('dk') == 'param':
            # a helper that sends its parameter: look at its callers
            i = [p['d'] for p in f.params].index(e['d'])
            cs = [(g, c) for g in fs for c in g.calls() if f in P.targets(c)]
            return bool(cs) and len(seen) < 4 and all(
                text(g, p, at, seen | {e['d']}, line) for g, c in cs if i < len(c['a']) for p in parts(c['a'][i]))
        return False
    for f in fs:
        for c in f.calls():
            if c['k'] != 'call' or not any(SEND.match(q) for q in [c.get('f', '')] + list(P.names(c))):
                continue
            n += 1
            raw = len(c['a']) == 2
            a = strip(c['a'][0])
            if raw and a['k'] in ('ref', 'mem', 'call', 'idx', 'bin') and not any(
                    x['k'] == 'call' and x.get('f', '').endswith('bytesFromString') for x in walk(a)) and \
                    'byte_t' in a.get('t', '') + str(c['a'][0].get('t', '')) + 'byte_t':
                # a buffer of bytes: message data
                if f.cls and f.cls.endswith('Connection') and f.name == 'sendRaw' or data(f, a):
                    ctx.ob('what is sent is message data', ctx.at(f, c['l']), True)
                    continue
            ok = all(text(f, p, (f, c['l']), frozenset(), c['l']) for p in parts(c['a'][0]))
            ctx.ob('what is sent is a literal, base64 or a command', ctx.at(f, c['l']), ok)
            if not ok:
                ctx.violation('send:%s' % f.q, '%s sends a text that does not come from a checked command: it may contain line '
                              'breaks' % f.q, f.file, c['l'], None, f.q)
    ctx.need('texts written to sockets', n, 9)
    ctx.need('members of commands that are sent', len(need), 3)
    for (cls, m), at in sorted(need.items()):
        stores(P, ctx, cls, m)


def data(f, a):
    """The buffer is filled by reading a stream, or is what a stream is given to write."""
    p = path_of(a)
    if p is None:
        return False
    for c in f.calls():
        if c['k'] == 'call' and c.get('f', '').endswith('::read') and c['a'] and path_of(c['a'][0]) == p:
            return True
    if f.name in ('writeImpl', 'sendChunk', 'write', 'flush') or a['k'] == 'ref' and a.get('dk') == 'param' and \
            'byte_t' in a.get('t', ''):
        return True
    return False


def stores(P, ctx, cls, m):
    """Every store of the member is followed or preceded by a search for line breaks in the same value."""
    n = 0
    for f in P.fn:
        if not f.d.get('body') or f.kind == 'dtor':
            continue
        p = None
        if f.kind == 'ctor' and f.cls == cls:
            if any(x.get('t', '').replace('const ', '').startswith(cls) for x in f.params):
                continue
            init = [i for i in f.d.get('inits', ()) if (i.get('m') or '').rsplit('::', 1)[-1] == m]
            if not init:
                continue
            e = init[0]['e']
            ps = list(parts(e))
            if all(x['k'] == 'str' for x in ps):
                continue
            p = path_of(ps[0]) if len(ps) == 1 else None
        else:
            w = [x for x in f.nodes('asg') if x['x']['k'] == 'mem' and x['x']['q'] == cls + '::' + m] + \
                [c for c in f.calls() if c['k'] == 'call' and c.get('o') is not None and not c.get('const') and
                 c['o']['k'] == 'mem' and c['o']['q'] == cls + '::' + m and (c.get('ot') or '').startswith('std::')]
            if not w:
                continue
        n += 1
        ok = checked(P, ctx, f, m, p)
        ctx.ob('a command is built from a text without line breaks', ctx.at(f), ok)
        if not ok:
            ctx.violation('text:%s:%s' % (f.q, m), '%s stores a text in %s::%s without having made sure that it contains no line '
                          'break' % (f.q, cls, m), f.file, f.line, None, f.q)
    ctx.counts['constructors of %s' % cls.rsplit('::', 1)[-1]] = n


def breaks(e):
    """Which line break characters a search looks for."""
    if e['k'] != 'call' or not re.search(r'::(find|find_first_of|find_last_of|rfind)$', e.get('f', '')) or not e['a']:
        return ''
    a = strip(e['a'][0])
    while a['k'] == 'ctor' and a['a']:
        a = strip(a['a'][0])
    s = ''
    if a['k'] == 'str':
        s = a.get('s', '')
        if not e['f'].endswith('_of') and len(s) != 1:
            return ''
    elif a.get('cv') is not None:
        s = chr(a['cv'] & 255)
    if len(e['a']) > 1 and strip(e['a'][1]).get('cv') not in (0, None, NPOS, -1):
        return ''
    return ''.join(c for c in '\r\n' if c in s)


def checked(P, ctx, f, m, p):
    bad = []

    def mark(P_, e, where):
        b = breaks(e)
        if not b:
            return None
        if where is None:
            return [()]
        eng, C, node, st = where
        o = path_of(e['o'], C.alias)
        if eng.val(e['o'], st, C) != TXT and o != 'this.' + m:
            return None
        key = ('e', e['i'])
        sym = ('s', ('call', C.func.id, e['i']))
        return [(set(b), (), 'n', None, (), ((key, ('c', NPOS)),)),
                ({'hit'}, (), 'n', None, (), ((key, sym), (('k', sym), FOUND)))]
    rule = MustPass(mark)
    eng = Engine(P, rule, ctx.fx)
    env = {('p', 'this.' + m): TXT}
    if p:
        env[('p', p)] = TXT
    res = list(eng.run(f, frozenset(), env))
    ctx.absorb(eng)
    for k, exc, rv, q, _ in res:
        if k == 'n' and ('hit' in q or not {'\r', '\n'} <= q):
            bad.append(q)
    return not bad


# (3) --------------------------------------------------------------------------------------------------
def quoting(P, ctx):
    hits = {}

    def sink(e, f):
        if e['k'] == 'ctor' and e.get('t', '').replace('const ', '') == 'vmime::net::imap::IMAPCommand' and len(e['a']) == 2:
            return [0]
        return None

    def found(f, node, i, ls):
        for x in ls:
            hits.setdefault(x, (f, node.line))

    def clean(e):
        return e.get('f') == 'vmime::net::imap::IMAPUtils::quoteString'
    api = []
    for f in P.fn:
        if f.file.startswith(('vmime/net/imap/', 'vmime/net/fetchAttributes')) and f.d.get('body') and f.cls and f.d.get('acc') in ('public', None) and \
                f.kind != 'dtor' and re.search(r'::IMAP(Store|Folder|Message|SearchAttributes\w*|Command|MessagePart\w*)$|::helpers::\w+|SearchToken', f.cls) or \
                f.q == 'vmime::net::fetchAttributes::add':
            api.append(f)
    T = Taint(P, lambda e, f: None, sink, found, clean, track=r'::IMAPCommand\b')
    n = 0
    for f in api:
        args = []
        for p in f.params:
            t = p.get('t', '')
            if STR.match(t):
                args.append((frozenset(['%s of %s' % (p['n'], f.q.replace('vmime::net::imap::', ''))]), True, True, ()))
                n += 1
            else:
                args.append(U)
        f_args = tuple(args)
        api[api.index(f)] = (f, f_args)
    for rnd in range(6):
        T.again()
        for f, a in api:
            T.func(f, a, U)
        if not T.changed:
            break
    ctx.need('string parameters of the IMAP interface', n, 15)
    ctx.counts['functions evaluated for quoting'] = len(T.evaluated)
    for f, a in api:
        ls = frozenset().union(*[lab(x) for x in a]) if a else frozenset()
        for x in sorted(ls):
            ok = x not in hits or x.split(' of IMAPCommand::')[-1] in ATOMS
            ctx.ob('reaches IMAP commands through the quoting function only', '%s (%s)' % (x, ctx.at(f)), ok)
            if not ok:
                g, line = hits[x]
                ctx.violation('quote:%s' % f.q, 'the argument %s reaches the text of an IMAP command (%s) without being quoted: it '
                              'can change the structure of the command' % (x, g.q), f.file, f.line, None, f.q)


    # search terms are written by the generate() functions of the token classes
    k = 0
    for f in P.fn:
        if not f.cls or not f.file.startswith('vmime/net/imap/') or not f.d.get('body') or \
                not tokenclass(P, f.cls) or not any('stream' in p.get('t', '') for p in f.params):
            continue
        for c in f.calls():
            if c.get('op') != '<<':
                continue
            a = strip(c['a'][-1])
            while a['k'] == 'ctor' and a.get('cp') and a['a']:
                a = strip(a['a'][0])
            k += 1
            raw = any(rawtext(f, x) for x in parts(a))
            ctx.ob('a search string is quoted', ctx.at(f, c.get('l')), not raw)
            if raw:
                ctx.violation('token:%s' % f.q, '%s writes a search string without quoting it' % f.q, f.file, c.get('l'), None, f.q)
    ctx.need('texts written by search tokens', k, 20)


def tokenclass(P, cls):
    """A class derived from the search token, also through a template."""
    todo, seen = [cls], set()
    while todo:
        c = todo.pop().split('<')[0]
        if c == TOKEN:
            return True
        if c not in seen and c in P.records:
            seen.add(c)
            todo.extend(P.records[c].get('bases', ()))
    return False


def rawtext(f, a, seen=frozenset()):
    """A string of the token (or a parameter) as it is."""
    t = a.get('t', '')
    if a['k'] not in ('mem', 'ref') or a.get('q', '').startswith(TOKEN + '::') or \
            not ('string' in t and 'stream' not in t or re.match(r'^(const )?char\b', t)):
        return False
    if a['k'] == 'ref' and a.get('dk') == 'local':
        return a['d'] not in seen and any(rawtext(f, y, seen | {a['d']}) for x in defs(f, a['d']) for y in parts(x))
    return True


TOKEN = 'vmime::net::imap::IMAPSearchToken'
# arguments that are atoms by contract
ATOMS = ('AUTHENTICATE', 'createCommand')
STR = re.compile(r'^(const )?(vmime::)?(string|std::(basic_)?string\b.*|vmime::net::folder::path|net::folder::path|folder::path|vmime::utility::path|utility::path|.*folder::path::component|vmime::word|char \*)( ?&&?)?$|^const char \*$')


SPECIAL = [ord(c) for c in '(){ %*"\\'] + [0x01, 0x0a, 0x1f, 0x7f]


class Quoter(MustPass):
    """One character k is read from the text again and again."""

    def __init__(self, f, k):
        super().__init__(None)
        self.f, self.k = f, k
        self.bad = []
        self.reads = 0

    def direct(self, eng, f):
        return len(f.params) <= 2 and any(re.match(r'^(const )?(unsigned )?(char|int|byte_t)\b', p.get('t', '')) for p in f.params)

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind != 'call':
            return None
        op = e.get('op')
        t = e.get('t', '')
        key = ('e', e['i'])
        if (op == '*' and not e['a'] or op == '[]' or e.get('f', '').endswith('::at')) and re.match(r'^(const )?char( ?&)?$', t) and \
                ('string' in e.get('ot', '') or 'iterator' in e.get('ot', '')):
            self.reads += 1
            return [(frozenset((st.q | {'seen'}) - {'esc'}), 'n', None, (), ((key, ('c', self.k)),))]
        if (op == '+=' or e.get('f', '').endswith(('::push_back', '::append'))) and 'string' in e.get('ot', '') and e['a']:
            a = strip(e['a'][-1])
            lit = a['k'] in ('chr', 'str') or a.get('cv') is not None
            cv = a.get('cv') if a['k'] != 'str' else (ord(a['s'][-1]) if a.get('s') else None)
            if lit:
                return [(frozenset(st.q | {'esc'}) if cv == 92 else st.q, 'd', None)]
            v = eng.val(a, st, C)
            if v == ('c', self.k) and self.k in (34, 92) and 'esc' not in st.q:
                self.bad.append((node.line, 'adds the character %r to a quoted string without escaping it' % chr(self.k)))
            return [(frozenset(st.q - {'esc'}), 'd', None)]
        return None

    def at_return(self, eng, C, node, st, v):
        if C.func is self.f and 'seen' in st.q and node.e is not None and \
                any(x['k'] == 'ref' and x.get('dk') == 'param' for x in parts(node.e)):
            self.bad.append((node.line, 'returns a text that contains the character %r without quoting it' % chr(self.k)))
        return [st]


def quoter(P, ctx):
    for f in P.find('vmime::net::imap::IMAPUtils::quoteString'):
        if not f.d.get('body'):
            continue
        for k in SPECIAL:
            r = Quoter(f, k)
            eng = Engine(P, r, ctx.fx)
            list(eng.run(f, frozenset(), {}))
            ctx.absorb(eng)
            ctx.ob('a special character is quoted', '%s: %r' % (ctx.at(f), chr(k)), not r.bad)
            ctx.counts['character reads followed'] = ctx.counts.get('character reads followed', 0) + r.reads
            for line, w in dict.fromkeys(r.bad):
                ctx.violation('quoter:%s:%d' % (f.q, k), '%s %s' % (f.q, w), f.file, line, None, f.q)


# (4) --------------------------------------------------------------------------------------------------
VALOPT = ('-f', '-F', '-r', '-N', '-R', '-V', '-B', '-O', '-C')


def sendmail(P, ctx):
    n = 0

    def push(e):
        return e['k'] == 'call' and e.get('f', '').endswith(('::push_back', '::emplace_back')) and e['a'] and \
            re.match(r'^(const )?std::vector<(std::|vmime::)?(basic_)?string', e.get('ot', ''))
    for f in P.fn:
        if not f.file.startswith('vmime/net/sendmail/') or not any(push(c) for c in f.calls()):
            continue
        bad = []

        def mark(P_, e, where):
            if not push(e):
                return None
            if where is None:
                return [()]
            st = where[3]
            ps = list(parts(e['a'][0]))
            if len(ps) == 1 and ps[0]['k'] == 'str':
                s = ps[0].get('s', '')
                return [({'end'} if s == '--' else {'opt'} if s in VALOPT else set(), {'opt'} - ({'opt'} if s in VALOPT else set()), 'd', None)]
            if 'end' not in st.q and 'opt' not in st.q and not (ps and ps[0]['k'] == 'str' and len(ps) > 1):
                bad.append(e['l'])
            return [((), {'opt'}, 'd', None)]
        eng = Engine(P, MustPass(mark, enter=lambda g: g.file.startswith('vmime/net/sendmail/')), ctx.fx)
        list(eng.run(f, frozenset(), {}))
        ctx.absorb(eng)
        k = sum(1 for c in f.calls() if push(c))
        n += k
        ctx.ob('arguments follow an option that takes one, or "--"', ctx.at(f), not bad)
        for line in sorted(set(bad)):
            ctx.violation('sendmail:%s' % f.q, '%s passes an argument to sendmail where it can be taken for an option' % f.q,
                          f.file, line, None, f.q)
    ctx.need('arguments passed to sendmail', n, 4)
