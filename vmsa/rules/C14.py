"""Fixed tables and vocabularies: standard values, and both directions of a translation agree."""
import re
from ..program import walk

V = 'vmime::'
N, U = V + 'net::', V + 'utility::'
IM = N + 'imap::'
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
HEX = {c: 10 + i for i, c in enumerate('abcdef')}
HEX.update({c.upper(): v for c, v in HEX.items()})
FLAGS = {'FLAG_REPLIED': '\\Answered', 'FLAG_MARKED': '\\Flagged', 'FLAG_DELETED': '\\Deleted', 'FLAG_SEEN': '\\Seen', 'FLAG_DRAFT': '\\Draft'}
LETTERS = {'FLAG_REPLIED': 'R', 'FLAG_SEEN': 'S', 'FLAG_DELETED': 'T', 'FLAG_MARKED': 'F', 'FLAG_PASSED': 'P', 'FLAG_DRAFT': 'D'}
USES = {'SPECIALUSE_' + n.upper(): '\\' + n for n in ('All', 'Archive', 'Drafts', 'Flagged', 'Junk', 'Sent', 'Trash', 'Important')}
ZONES = {'EST': -300, 'EDT': -240, 'CST': -360, 'CDT': -300, 'MST': -420, 'MDT': -360, 'PST': -480, 'PDT': -420, 'GMT': 0, 'UTC': 0, 'UT': 0}
FETCH = {'SIZE': 'RFC822.SIZE', 'FLAGS': 'FLAGS', 'STRUCTURE': 'BODYSTRUCTURE', 'UID': 'UID', 'FULL_HEADER': 'RFC822.HEADER',
         'ENVELOPE': 'ENVELOPE', 'CONTENT_INFO': 'CONTENT-TYPE', 'IMPORTANCE': 'IMPORTANCE'}
STORE = {'FLAG_MODE_ADD': '+FLAGS', 'FLAG_MODE_REMOVE': '-FLAGS', 'FLAG_MODE_SET': 'FLAGS'}
PORTS = {'smtp': ('25', '465'), 'pop3': ('110', '995'), 'imap': ('143', '993')}
ENCODERS = {'base64': 'b64Encoder', 'quoted-printable': 'qpEncoder', 'bmoted-printable': 'qpEncoder', 'uuencode': 'uuEncoder',
            'x-uuencode': 'uuEncoder', '7bit': 'sevenBitEncoder', '8bit': 'eightBitEncoder', 'binary': 'binaryEncoder',
            '7-bit': 'sevenBitEncoder', '8-bit': 'eightBitEncoder', '8bits': 'eightBitEncoder'}
FIELDS = {'From': 'mailbox', 'To': 'addressList', 'Cc': 'addressList', 'Bcc': 'addressList', 'Sender': 'mailbox', 'Date': 'datetime',
          'Received': 'relay', 'Subject': 'text', 'Reply-To': 'addressList', 'Delivered-To': 'mailbox', 'Organization': 'text',
          'User-Agent': 'text', 'Return-Path': 'path', 'Content-Type': 'mediaType', 'Content-Transfer-Encoding': 'encoding',
          'Content-Description': 'text', 'Mime-Version': 'text', 'Content-Disposition': 'contentDisposition', 'Content-Id': 'messageId',
          'Message-Id': 'messageId', 'Content-Location': 'text', 'In-Reply-To': 'messageIdSequence', 'References': 'messageIdSequence',
          'Original-Message-Id': 'messageId', 'Disposition': 'disposition', 'Disposition-Notification-To': 'mailboxList'}
DIGESTS = {'md5': 'md5MessageDigest', 'sha1': 'sha1MessageDigest'}
REPLIES = {'flag': 'answered deleted draft flagged seen', 'mailbox': 'inbox', 'NIL': 'nil',
           'mailbox_data': 'exists flags list lsub mailbox recent search status',
           'mailbox_flag': 'all archive drafts flagged haschildren hasnochildren important junk marked noinferiors noselect sent trash unmarked',
           'message_data': 'expunge fetch', 'resp_cond_auth': 'ok preauth', 'resp_cond_bye': 'bye', 'resp_cond_state': 'bad no ok',
           'msg_att_item': 'body bodystructure envelope flags internaldate modseq rfc822 rfc822.header rfc822.size rfc822.text uid',
           'resp_text_code': 'alert appenduid copyuid highestmodseq modified nomodseq parse permanentflags read-only read-write '
                             'trycreate uidnext uidnotsticky uidvalidity unseen',
           'section_text': 'header header.fields header.fields.not mime text', 'media_message': 'message', 'media_text': 'text',
           'status_att_val': 'highestmodseq messages recent uidnext uidvalidity unseen', 'capability_data': 'capability'}
KINDS = {'Content-Type': 'contentTypeField', 'Content-Disposition': 'contentDispositionField',
         'Content-Transfer-Encoding': 'parameterizedHeaderField', 'From': 'mailboxField', 'Sender': 'mailboxField',
         'Delivered-To': 'mailboxField'}
# a constant whose name does not spell its value
SPELT = {'SEVEN_BIT': '7bit', 'EIGHT_BIT': '8bit', 'ISO8859': 'iso-8859'}


def norm(s):
    return re.sub(r'[^a-z0-9]', '', s.lower())


def strip(e):
    while e is not None:
        if e.get('k') == 'cast':
            e = e['e']
        elif e.get('k') == 'ctor' and [a for a in e['a'] if a.get('k') != 'defarg'] and \
                len([a for a in e['a'] if a.get('k') != 'defarg']) == 1 and e.get('c', '').startswith('std::basic_string'):
            e = e['a'][0]
        else:
            return e
    return e


class Words:
    """What each value of a vocabulary leads to in a function, from the conditions over each statement."""

    def __init__(self, f):
        self.f = f
        self.local = {v['d']: v for d in f.nodes('decl') for v in d['v'] if v.get('d') is not None}
        asg = {n['x']['d'] for n in f.nodes('asg') if n['x'].get('k') == 'ref' and n['x'].get('d') is not None}
        asg |= {n['e']['d'] for n in f.nodes('un') if n.get('op') in ('++', '--') and n['e'].get('k') == 'ref' and n['e'].get('d') is not None}
        self.once = {d: v['init'] for d, v in self.local.items() if v.get('init') is not None and d not in asg}
        self.found = []
        self.block(f.d['body'], ())

    # -- statements with the conditions they are under
    def block(self, s, cons):
        """Returns the conditions that hold behind the statement, or None when nothing follows."""
        if s is None:
            return cons
        k = s.get('k')
        if k == 'block':
            for x in s['b']:
                cons = self.block(x, cons)
                if cons is None:
                    return None
            return cons
        if k == 'if':
            a = self.block(s['x'], cons + (('if', True, s['c'], s['i']),))
            b = self.block(s.get('y'), cons + (('if', False, s['c'], s['i']),))
            if a is None and b is None:
                return None
            return b if a is None else a if b is None else cons
        if k == 'switch':
            self.switch(s, cons)
            return cons
        if k in ('case', 'default'):
            return self.block(s['s'], cons)
        if k in ('ret', 'break', 'continue', 'goto') or k == 'throw':
            self.effect(s, cons)
            return None
        if k in ('for', 'while', 'do', 'rangefor', 'try', 'catch', 'label', 'foreach'):
            for n, x in s.items():
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, dict) and y.get('k'):
                        self.block(y, cons) if n != 'c' else None
            return cons
        if k == 'expr' and s['e'].get('k') == 'throw':
            return None
        self.effect(s, cons)
        return cons

    def switch(self, s, cons):
        labels, all_labels = [], []
        body = s['b']['b'] if s['b'].get('k') == 'block' else [s['b']]

        def peel(x):
            r = []
            while x is not None and x.get('k') in ('case', 'default'):
                r.append(x['v'] if x['k'] == 'case' else None)
                x = x['s']
            return r, x
        for x in body:
            all_labels += [v for v in peel(x)[0] if v is not None]
        cur = None
        for x in body:
            ls, st = peel(x)
            if ls:
                labels = (labels if cur is not None else []) + ls
                cur = cons + (('sw', s['c'], list(labels), all_labels, s['i']),)
            if cur is not None:
                cur = self.block(st, cur)
                if cur is None:
                    labels = []

    def effect(self, s, cons):
        e = s.get('e') if s.get('k') in ('expr', 'ret') else s
        if e is None:
            return
        if cons:
            self.found.append((cons, s))

    # -- the value of a condition for one word
    def value(self, e, w, depth=0):
        """The constant an expression is: ('s', text), ('n', number), ('e', enumerator) or None."""
        e = strip(e)
        if e is None:
            return None
        k = e.get('k')
        if k == 'str':
            return ('s', e['s'])
        if k == 'chr':
            return ('c', e['cv'])
        if k == 'ref' and e.get('dk') == 'enum':
            return ('e', e['q'])
        if k in ('idx',) or (k == 'call' and e.get('op') == '[]'):
            ix = e['ix'] if k == 'idx' else (e['a'][-1] if e['a'] else None)
            if isinstance(w, str):
                i = ix.get('cv') if ix is not None else None
                if i is None:
                    return ('c', ord(w[0])) if len(w) == 1 else None
                return ('c', ord(w[i]) if i < len(w) else 0) if len(w) > 1 or i == 0 else ('c', ord(w[0]))
            return None
        if (k == 'un' and e.get('op') == '*') or (k == 'call' and e.get('op') == '*' and not e.get('a')):
            return ('c', ord(w)) if isinstance(w, str) and len(w) == 1 else None
        if k == 'call' and e.get('f', '').rsplit('::', 1)[-1].lower() in ('tolower', 'toupper') and e['a']:
            v = self.value(e['a'][0], w, depth)
            if v is not None and v[0] == 'c':
                c = chr(v[1])
                return ('c', ord(c.lower() if e['f'].lower().endswith('tolower') else c.upper()))
            return None
        if k == 'ref' and e.get('d') in self.once and depth < 4:
            return self.value(self.once[e['d']], w, depth + 1)
        if e.get('cv') is not None and k in ('int', 'chr', 'bin', 'un', 'char'):
            return ('c', e['cv'])
        return None

    def eq(self, x, y, w):
        r = self.eq_(x, y, w)
        if r:
            self.matched = True
        return r

    def eq_(self, x, y, w):
        a, b = self.value(x, w), self.value(y, w)
        if isinstance(w, tuple):            # an enumerator
            for p, q in ((a, b), (b, a)):
                if p is not None and p[0] == 'e' and q is None and p[1].rsplit('::', 1)[0] == w[1].rsplit('::', 1)[0]:
                    return p[1] == w[1]
            return None
        for p, q in ((a, b), (b, a)):
            if p is not None and p[0] == 's' and q is None and len(w) > 1:
                return p[1].lower() == w.lower()
        if a is not None and b is not None and a[0] == b[0] == 'c':
            return a[1] == b[1]
        if self.single and len(w) == 1 and (a is None) != (b is None):
            return (a or b)[0] == 'c' and (a or b)[1] == ord(w)
        return None

    def test(self, c, w, depth=0):
        c = strip(c)
        if c is None:
            return None
        k = c.get('k')
        if k == 'bin' and c['op'] in ('&&', '||'):
            x, y = self.test(c['x'], w), self.test(c['y'], w)
            if c['op'] == '&&':
                return False if x is False or y is False else True if x and y else None
            return True if x or y else False if x is False and y is False else None
        if k == 'un' and c.get('op') == '!':
            x = self.test(c['e'], w)
            return None if x is None else not x
        if k == 'bin' and c['op'] in ('==', '!='):
            z = [y for y in (strip(c['x']), strip(c['y'])) if y.get('cv') == 0 and y.get('k') == 'int']
            if z:       # (flags & X) != 0
                o = strip(c['y']) if strip(c['x']) is z[0] else strip(c['x'])
                if o.get('k') == 'bin' and o.get('op') == '&':
                    x = self.test(o, w)
                    return None if x is None else x == (c['op'] == '!=')
            x = self.eq(c['x'], c['y'], w)
            return None if x is None else x == (c['op'] == '==')
        if k == 'bin' and c['op'] == '&' and isinstance(w, tuple):
            for p in (strip(c['x']), strip(c['y'])):
                if p.get('k') == 'ref' and p.get('dk') == 'enum' and p['q'].rsplit('::', 1)[0] == w[1].rsplit('::', 1)[0]:
                    self.matched |= p['q'] == w[1]
                    return p['q'] == w[1]
            return None
        if k == 'call':
            args = ([c['o']] if c.get('o') is not None else []) + [a for a in c['a'] if a.get('k') != 'defarg']
            if c.get('op') in ('==', '!=') and len(args) == 2:
                x = self.eq(args[0], args[1], w)
                return None if x is None else x == (c['op'] == '==')
            name = c.get('f', '').rsplit('::', 1)[-1].lower()
            if isinstance(w, str) and len(w) > 1 and ('equal' in name or name.startswith('check')):
                for a in args:
                    v = self.value(a, w)
                    if v is not None and v[0] == 's':
                        if v[1].lower() == w.lower():
                            self.matched = True
                            return True
                        return False
            if isinstance(w, tuple) and name in ('has', 'test', 'contains'):
                for a in args:
                    v = self.value(a, w)
                    if v is not None and v[0] == 'e' and v[1].rsplit('::', 1)[0] == w[1].rsplit('::', 1)[0]:
                        self.matched |= v[1] == w[1]
                        return v[1] == w[1]
        if k == 'ref' and c.get('d') in self.once and depth < 4:
            return self.test(self.once[c['d']], w, depth + 1)
        return None

    def holds(self, con, w):
        if con[0] == 'if':
            x = self.test(con[2], w)
            return None if x is None else x == con[1]
        _k, c, labels, every, _i = con
        xs = [self.eq(c, v, w) for v in labels if v is not None]
        if any(xs):
            return True
        if None in labels:
            ys = [self.eq(c, v, w) for v in every]
            return True if ys and all(y is False for y in ys) else False if any(ys) else None
        return False if xs and all(x is False for x in xs) else None

    def reach(self, w, group=False, rest=False):
        """The statements that are executed for a word, under a condition that looks at it."""
        r = []
        self.single = group
        for cons, s in self.found:
            self.matched = False
            # lookups of several characters are within one another: only the innermost one counts
            cons = cons[-1:] if group else cons
            hs = [self.holds(c, w) for c in cons]
            # one of them must match the word, not only exclude others
            if False in hs or True not in hs or not (self.matched or rest):
                continue
            g = cons[hs.index(True)]
            r.append((s, g[-1] if group else None))
        return r


def tokens(s, target=None):
    """What a statement assigns, appends or returns."""
    r = set()
    for n in walk(s):
        k = n.get('k')
        vals = []
        if k == 'asg':
            if target is None or n['x'].get('n') == target:
                vals = [n['y']]
        elif k == 'call' and n.get('op') in ('+=', '<<', '='):
            vals = n['a']
        elif k == 'call' and n.get('f', '').rsplit('::', 1)[-1] in ('push_back', 'emplace_back', 'append', 'insert', 'write', 'push'):
            vals = n['a']
        elif k == 'ret' and n.get('e') is not None:
            vals = [n['e']]
        for v in vals:
            for y in [strip(v)] + [z for z in walk(v) if z.get('k') in ('str', 'new')]:
                if y is None:
                    continue
                if y.get('k') == 'str':
                    r.add(('s', y['s'].strip()))
                elif y.get('k') == 'chr':
                    r.add(('s', chr(y['cv'])))
                    r.add(('n', y['cv']))
                elif y.get('k') == 'ref' and y.get('dk') == 'enum':
                    r.add(('e', y['q'].rsplit('::', 1)[-1]))
                    r.add(('n', y.get('cv')))
                elif y.get('cv') is not None:
                    r.add(('n', y['cv']))
    return r


def check(P, ctx):
    ctx.rule('The constants of each table are compared with the standard that defines them and with the table for the other '
             'direction; for each word of a vocabulary, the conditions over every statement of the translating function are '
             'evaluated for that word, and what is assigned, appended or returned under them is compared with what the word '
             'means; registrations, command builders, default ports and named constants are compared with their names.')
    ctx.assumptions += ['a table or function of another shape than the ones described is not looked at',
                        'conditions that do not test the word may be true or false']
    st = {'tables': 0, 'words': 0, 'names': 0}

    def glob(name):
        r = [g for (q, _f, _l), g in P.globals.items() if q == name and g.get('file', '').endswith('.cpp')]
        return r[0] if r else None

    def bad(key, msg, file, line, fn=''):
        ctx.violation(key, msg, file, line, None, fn)

    def table(key, g, got, want, what, file=None):
        st['tables'] += 1
        if got == want:
            ctx.ob('tables have their standard values', '%s %s' % (g.get('file') or file, key), True)
            return
        ctx.ob('tables have their standard values', '%s %s' % (g.get('file') or file, key), False)
        i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
        bad('table:' + key, '%s: entry %d is %r, not %r' % (what, i, got[i] if i < len(got) else None, want[i] if i < len(want) else None),
            g.get('file') or file, g['l'])

    def strs(x):
        return [y['s'] for y in x.get('a', []) if y.get('k') == 'str']

    # -- tables
    g = glob(U + 'encoder::b64Encoder::sm_alphabet')
    if g and isinstance(g.get('val'), list):
        table('b64Encoder::sm_alphabet', g, ''.join(map(chr, g['val'][:64])), B64, 'Base64 alphabet')
    g = glob(U + 'encoder::b64Encoder::sm_decodeMap')
    if g and isinstance(g.get('val'), list):
        v = list(g['val'])
        if len(v) == 256:
            v[ord('=')] = -1
        table('b64Encoder::sm_decodeMap', g, v, [-1 if i == ord('=') else B64.index(chr(i)) if chr(i) in B64 else 255 for i in range(256)],
              'Base64 decoding table')
    g = glob(U + 'encoder::qpEncoder::sm_hexDigits')
    if g and isinstance(g.get('val'), list):
        table('qpEncoder::sm_hexDigits', g, ''.join(map(chr, g['val'][:16])), '0123456789ABCDEF', 'hexadecimal digits')
    g = glob(U + 'encoder::qpEncoder::sm_hexDecodeTable')
    if g and isinstance(g.get('val'), list):
        table('qpEncoder::sm_hexDecodeTable', g, g['val'], [int(chr(i), 16) if chr(i) in '0123456789abcdefABCDEF' else 0 for i in range(256)],
              'values of the hexadecimal digits')
    g = glob(U + 'encoder::qpEncoder::sm_RFC2047EncodeTable')
    if g and isinstance(g.get('val'), list):
        ok = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!*+-/')
        table('qpEncoder::sm_RFC2047EncodeTable', g, [0 if chr(i) in ok else 1 if x else 0 for i, x in enumerate(g['val'])],
              [0 if chr(i) in ok else 1 for i in range(128)], 'characters to encode in an encoded word')
    for (q, f, _l), g in sorted(P.globals.items(), key=lambda x: x[0]):
        i = g.get('init') or {}
        if not f.endswith('.cpp') or i.get('k') != 'ilist':
            continue
        s = strs(i)
        if len(s) == len(i['a']) == 12 and s[0][:3].lower() == 'jan':
            table(q.replace(V, ''), g, [x.lower() for x in s], [m[:len(x)].lower() for m, x in zip(MONTHS, s)], 'names of the months')
        if len(s) == len(i['a']) == 7 and 'Sun' in s:
            table(q.replace(V, ''), g, s, ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat'], 'names of the days')
    days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if f.d.get('body') is None or not f.file.startswith('vmime/'):
            continue
        for n in walk([f.d['body'], f.d.get('inits') or []]):
            if n.get('k') != 'str' or not 16 <= len(n['s']) <= 66 or not n['s'].isascii():
                continue
            x, gl = n['s'], {'file': f.file, 'l': n.get('l', f.line)}
            if len(set(x[:16].lower()) & set('0123456789abcdef')) > 13 and re.match(r'[0-9a-fA-F]{14}', x):
                table('%s:%s' % (f.q.replace(V, ''), 'hex'), gl, x[:16].lower(), '0123456789abcdef', 'hexadecimal digits')
            elif len(x) >= 64 and len(set(x) & set(B64)) > 60:
                end = B64[62:] if '/' in x[60:] else '+,' if f.q.startswith(IM) else B64[62:]
                table('%s:%s' % (f.q.replace(V, ''), 'base64'), gl, x[:64], B64[:62] + end, 'Base64 alphabet')
        for d in f.nodes('decl'):
            for v in d['v']:
                i = v.get('init') or {}
                name = '%s:%s' % (f.q.replace(V, ''), v.get('n'))
                x = strip(i)
                gl = {'file': f.file, 'l': v.get('l', f.line)}
                if x.get('k') == 'ilist':
                    ns = [strip(y).get('cv') for y in x['a']]
                    if len(ns) == 12 and None not in ns and ns[0] == 31 and 'datetime' in f.q.lower():
                        leap = ns[1] == 29 or 'leap' in v.get('n', '').lower()
                        table(name, gl, ns, [29 if leap and k == 1 else n for k, n in enumerate(days)], 'days of the months')
                    if len(ns) == 12 and None not in ns and ns[:2] == [0, 31]:
                        table(name, gl, ns, [sum(days[:k]) for k in range(12)], 'days before the months')
                    ps = [y for y in x['a'] if y.get('k') == 'ctor' and y.get('c') == 'std::pair' and len(y['a']) == 2 and
                          y['a'][0].get('k') == 'chr' and y['a'][1].get('cv') is not None]
                    if len(ps) == len(x['a']) >= 20 and f.q == V + 'datetime::parseImpl':
                        z = [c for c in 'abcdefghiklm']
                        want = {c: -60 * (k + 1) for k, c in enumerate(z)}
                        want.update({c: 60 * (k + 1) for k, c in enumerate('nopqrstuvwxy')})
                        want['z'] = 0
                        got = {chr(y['a'][0]['cv']): y['a'][1]['cv'] for y in ps}
                        table(name, gl, sorted(got.items()), sorted(want.items()), 'military time zones')

    # -- vocabularies
    def mentions(f, w):
        seen, work = set(), [f]
        while work:
            g = work.pop()
            if g.d['id'] in seen or g.d.get('body') is None:
                continue
            seen.add(g.d['id'])
            for y in walk([g.d['body'], g.d.get('inits') or []]):
                if y.get('q') == w or y.get('k') == 'str' and y['s'].lower() == w.lower() or \
                        y.get('k') == 'chr' and len(w) == 1 and y.get('cv') == ord(w):
                    return True
                if y.get('k') == 'call':
                    work += [x for x in P.funcs.get(y.get('id')) or [] if x.file == f.file]
        return any(y.get('q') == w for (_q, fl, _l), x in P.globals.items() if fl == f.file for y in walk(x.get('init') or {}))

    def words(fn, pairs, kind, what, target=None, group=False, domain=None, enum=None, missing=True):
        """pairs: word (text, or enumerator when enum is given) -> meaning."""
        domain = domain if domain is not None else set(pairs.values())
        fold = (lambda x: x.lower()) if kind == 's' else (lambda x: x)
        for f in P.byq.get(fn, []):
            if f.d.get('body') is None:
                continue
            W = Words(f)
            got, other, last = {}, {}, {}
            for w in pairs:
                for s, g in W.reach(('e', enum + w), group, True) if enum else ():
                    for x in {fold(x) for k, x in tokens(s, target) if k == kind and x is not None} & {fold(x) for x in domain}:
                        last.setdefault(w, {}).setdefault(x, s.get('l', f.line))
                for s, g in W.reach(('e', enum + w) if enum else w, group):
                    t = {fold(x) for k, x in tokens(s, target) if k == kind and x is not None}
                    for x in t & {fold(x) for x in domain}:
                        got.setdefault(g, {}).setdefault(w, {}).setdefault(x, s.get('l', f.line))
                    for x in t if kind == 's' else ():
                        other.setdefault((g, w), {}).setdefault(x, s.get('l', f.line))
            for g, m in got.items():
                if len(m) < 2 and len(pairs) > 2:
                    continue
                for w, want in pairs.items():
                    st['words'] += 1
                    r = m.get(w) or last.get(w) if enum and not other.get((g, w)) else m.get(w)
                    o = other.get((g, w), {})
                    r = r or (o if len(o) == 1 else {})
                    # not found: only when the word is gone, not when it is handled in another way
                    ok = set(r) == {fold(want)} or not r and (not missing or mentions(f, enum + w if enum else w))
                    ctx.ob('words lead to their meaning', '%s %s' % (f.q, w), ok)
                    if not ok:
                        wrong = sorted(map(str, set(r) - {fold(want)}))
                        bad('word:%s:%s%s' % (f.q, w, ':' + ','.join(wrong) if wrong else ''), '%s: %s does not lead to %s%s' %
                            (what, w, want, ', but to ' + ' and '.join(wrong) if wrong else ''), f.file,
                            next((l for x, l in r.items() if x != fold(want)), f.line), f.q)

    words(V + 'datetime::parseImpl', {m[:3]: i + 1 for i, m in enumerate(MONTHS)}, 'n', 'names of months', 'm_month')
    words(V + 'datetime::parseImpl', ZONES, 'n', 'names of time zones', 'm_zone', domain=set(range(-720, 721)))
    M = N + 'message::'
    words(N + 'maildir::maildirUtils::extractFlags', {l: n for n, l in LETTERS.items()}, 'e', 'flags in file names')
    words(N + 'maildir::maildirUtils::buildFlags', LETTERS, 's', 'flags in file names', enum=M)
    words(IM + 'IMAPUtils::messageFlagsFromFlags', {v[1:].upper(): k for k, v in FLAGS.items()}, 'e', 'message flags',
          enum=IM + 'IMAPParser::flag::')
    words(IM + 'IMAPUtils::messageFlagList', FLAGS, 's', 'message flags', enum=M)
    words(IM + 'IMAPUtils::mailboxFlagsToFolderAttributes', {k: k for k in USES}, 'e', 'special uses of folders',
          enum=IM + 'IMAPParser::mailbox_flag::', domain=set(USES))
    words(IM + 'IMAPUtils::mailboxFlagsToFolderAttributes', {'NOSELECT': 'FLAG_NO_OPEN'}, 'e', 'attributes of folders',
          enum=IM + 'IMAPParser::mailbox_flag::')
    for q in sorted({f.q for f in P.fn if f.file.endswith('IMAPSearchAttributes.cpp') and f.q.endswith('::generate')}):
        words(q, {k: v[1:] for k, v in FLAGS.items()}, 's', 'message flags', enum=M)
    words(IM + 'IMAPFolder::create', USES, 's', 'special uses of folders', enum=N + 'folderAttributes::')
    words(IM + 'IMAPCommand::STORE', STORE, 's', 'ways to change flags', enum=M)
    words(IM + 'IMAPUtils::buildFetchCommand', FETCH, 's', 'items to fetch', enum=N + 'fetchAttributes::')
    for f in sorted({f.q for f in P.fn if f.q.startswith((V + 'parameter::', U + 'urlUtils::'))}):
        words(f, HEX, 'n', 'hexadecimal digits', group=True)
    # tokens of IMAP replies are named after the words they stand for
    nparse = 0
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if not f.file.endswith('IMAPParser.hpp') or f.d.get('body') is None or not f.q.endswith('::parseImpl'):
            continue
        std = REPLIES.get(f.cls.rsplit('::', 1)[-1], '').split()
        there = [w for w in std if mentions(f, w)]
        for w in std:
            st['words'] += 1
            ok = w in there or len(there) * 2 < len(std) or len(std) == 1 and not any(y.get('k') == 'str' for y in walk(f.d['body']))
            ctx.ob('words of IMAP replies are recognised', '%s %s' % (f.q, w), ok)
            if not ok:
                bad('unknown:%s:%s' % (f.q, w), 'words of IMAP replies: %s is not recognised by %s' % (w, f.q), f.file, f.line, f.q)
        enums = [e for e in P.enums if e.startswith(f.cls + '::')]
        if not enums:
            continue
        names = {}
        for e in enums:
            for x in P.enums[e]['e']:
                names[norm(x['n'])] = x['n']
                for p in ('SPECIALUSE_', 'TYPE_'):
                    if x['n'].startswith(p):
                        names[norm(x['n'][len(p):])] = x['n']
        lits = {y['s'] for n in f.nodes('if') for y in walk(n['c']) if y.get('k') == 'str'} | \
               {y['s'] for n in f.nodes('call') for y in walk({'a': n['a']}) if y.get('k') == 'str' and 'check' in n.get('f', '').lower()}
        pairs = {l: names[norm(l)] for l in sorted(lits) if norm(l) in names and len(l) > 1}
        if pairs:
            nparse += 1
            words(f.q, pairs, 'e', 'words of IMAP replies', missing=False)
    ctx.count('IMAP reply parsers', nparse)

    # -- names
    def name(key, msg, ok, file, line, fn=''):
        st['names'] += 1
        ctx.ob('names say what they stand for', key, ok)
        if not ok:
            bad(key, msg, file, line, fn)

    for (q, f, _l), g in sorted(P.globals.items(), key=lambda x: x[0]):
        if f == 'vmime/constants.cpp' and isinstance(g.get('val'), str):
            n, ns = q.rsplit('::', 1)[-1], q.split('::')[-2]
            short = [n, 'MDN_' + n] if ns == 'dispositionSendingModes' else [n]
            for p in ('TEXT_', 'MULTIPART_', 'MESSAGE_', 'APPLICATION_', 'IMAGE_', 'AUDIO_', 'VIDEO_'):
                if ns == 'mediaTypes' and n.startswith(p):
                    short.append(n[len(p):])
            ok = any(SPELT.get(s, s).lower().replace('_', '-') == g['val'].lower() for s in short) or \
                ns == 'charsets' and norm(n) == norm(g['val'])
            name('constant:' + q.replace(V, ''), 'constant %s has the value "%s"' % (q, g['val']), ok, f, g['l'])
    for cls in (N + 'pop3::POP3Command', IM + 'IMAPCommand', N + 'smtp::SMTPCommand', IM + 'IMAPSearchTokenFactory'):
        for f in sorted(P.fn, key=lambda f: f.sig()):
            n = f.q.rsplit('::', 1)[-1]
            if f.cls != cls or f.d.get('body') is None or not n.isupper():
                continue
            ss = [y['s'] for y in walk(f.d['body']) if y.get('k') == 'str' and re.match(r'[A-Z]', y['s'])]
            if not ss:
                continue
            first = [s for s in ss if norm(s).startswith(norm(n)) or norm(s.replace('UID ', '')).startswith(norm(n))]
            name('command:' + f.q.replace(V, ''), '%s builds the command "%s"' % (f.q, ss[0].strip()), bool(first), f.file, f.line, f.q)

    def registered(cls, method, want, what):
        found = {}
        for f in sorted(P.fn, key=lambda f: f.sig()):
            if f.cls != cls or f.d.get('body') is None:
                continue
            for c in f.calls():
                if not c.get('f', '').endswith('::' + method) or not c['a']:
                    continue
                v = strip(c['a'][0])
                s = v['s'] if v.get('k') == 'str' else None
                if v.get('k') == 'ref' and v.get('q'):
                    s = next((g['val'] for (q, _f, _l), g in P.globals.items() if q == v['q'] and isinstance(g.get('val'), str)), None)
                t = P.funcs.get(c.get('id')) or []
                t = next((x for x in (t if isinstance(t, list) else [t]) if x.d.get('body') is not None), None)
                if s is None or t is None:
                    continue
                w = next((x for k, x in want.items() if k.lower() == s.lower()), None)
                found.setdefault(f, set()).add(s.lower())
                if w is None:
                    continue
                ts = ' '.join(str(y.get('t', '')) + ' ' + str(y.get('f', '')) + ' ' + str(y.get('q', '')) for y in walk(t.d['body']))
                every = {x for x in want.values() if re.search(r'::%s\b' % x, ts)}
                if not every:
                    continue
                name('registered:%s:%s' % (method, s), '%s "%s" is registered with %s' % (what, s, ' and '.join(sorted(every))),
                     w in every, f.file, c['l'], f.q)
        for f, m in found.items():
            gone = [k for k in sorted(want) if k.lower() not in m]
            for k in gone if len(gone) * 2 < len(want) else ():
                q = next((q for (q, fl, _l), g in P.globals.items() if fl.endswith('constants.cpp') and g.get('val') == k), None)
                name('unregistered:%s:%s' % (method, k), '%s "%s" is not registered' % (what, k),
                     mentions(f, k) or q is not None and mentions(f, q), f.file, f.line, f.q)

    registered(U + 'encoder::encoderFactory', 'registerName', ENCODERS, 'encoding')
    registered(V + 'headerFieldFactory', 'registerFieldValue', FIELDS, 'field')
    registered(V + 'headerFieldFactory', 'registerField', KINDS, 'field')
    registered(V + 'security::digest::messageDigestFactory', 'registerAlgorithm', DIGESTS, 'digest')
    for proto, (plain, tls) in PORTS.items():
        for f in sorted(P.fn, key=lambda f: f.sig()):
            if not f.q.endswith('ServiceInfos::getProperties') or '::%s::' % proto not in f.q or f.d.get('body') is None:
                continue
            for d in f.nodes('decl'):
                for v in d['v']:
                    if not v.get('static'):
                        continue
                    ps = [strip(y['a'][1]).get('s') for y in walk(v.get('init') or {}) if y.get('k') == 'ctor' and len(y.get('a', [])) >= 2 and
                          any(z.get('q', '').endswith('::SERVER_PORT') for z in walk({'a': y['a'][:1]}) if z.get('k') in ('ref', 'mem'))]
                    ps = [p for p in ps if p]
                    secure = 's' == v['n'].lower().replace('props', '')[-1:]
                    for p in ps:
                        name('port:%s:%s' % (proto, v['n']), 'default port of %s%s is %s' % (proto, ' over TLS' if secure else '', p),
                             p == (tls if secure else plain), f.file, v.get('l', f.line), f.q)
    for k, n in st.items():
        ctx.count(k, n)
    ctx.need('words looked up', st['words'], 40)
    ctx.need('names compared', st['names'], 60)
    ctx.need('tables compared', st['tables'], 5)
