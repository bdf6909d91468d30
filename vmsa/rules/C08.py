"""Events and cached state follow what the server or the file system has done, never precede it."""
import re

from ..engine import Engine, path_of, transparent
from ..mustpass import MustPass, G, nonnull
from ..program import walk
from .C06 import PRIM

U = 'vmime::utility::'
BAD, OK = G('failed reply'), G('good reply')
FS = 'vmime::exceptions::filesystem_exception'
ROOTS = ('vmime/net/imap/', 'vmime/net/pop3/', 'vmime/net/maildir/')
STATE = {'m_messageCount', 'm_unreadMessageCount', 'm_messageInfos', 'm_path', 'm_name', 'm_flags', 'm_expunged', 'm_deleted', 'm_num'}
OPENED = {'m_open', 'm_mode'}
NOTIFY = re.compile(r'^vmime::net::folder::notify(MessageChanged|MessageCount|Folder|Event)$')
FILE = {U + 'file::' + n for n in ('createFile', 'createDirectory', 'rename', 'remove', 'getFiles')} | \
    {U + 'outputStream::flush'}

M = 'vmime::net::maildir::'
# Single files that cannot be renamed, removed or listed are passed over there, as the code says.
IGNORED = {M + 'maildirFolder::scanFolder': 'a folder that cannot be read counts as empty',
           M + 'maildirFolder::destroy': 'what cannot be removed is left behind',
           M + 'maildirUtils::recursiveFSDelete': 'what cannot be removed is left behind',
           M + 'maildirFolder::expunge': 'a message file that cannot be removed is passed over',
           M + 'maildirFolder::setMessageFlags': 'a message file that cannot be renamed is passed over'}
# The second of two renames may fail.
OPTIONAL = {M + 'format::kmailMaildirFormat::renameFolder': 'a folder without sub-folders has no container directory'}

# What an operation that succeeded has announced.
ANNOUNCE = {'create': 'CREATED', 'destroy': 'DELETED', 'rename': 'RENAMED', 'deleteMessages': '', 'setMessageFlags': '',
            'addMessage': '', 'expunge': ''}
IM = 'vmime::net::imap::'
# These do not look at what else the reply says about the messages of the folder.
UNREAD = {IM + 'IMAPFolder::' + n for n in ('close', 'create', 'destroy', 'exists', 'testExistAndGetType', 'getMessages',
                                            'getFolders', 'getStatus', 'status', 'getAttributes')} | {IM + 'IMAPMessage::extractImpl'}


class Order(MustPass):
    exc_types = True
    interfacts = True
    count = False

    def __init__(self, P, codes):
        MustPass.__init__(self, self.marked)
        self.P, self.codes = P, codes
        self.types = {P.enum_value('vmime::net::events::folderEvent::Types', 'TYPE_' + n): n for n in ('CREATED', 'DELETED', 'RENAMED')}
        self.bad = {}
        self.n = {}

    def may_enter(self, eng, f):
        return f.file.startswith(('vmime/net/',)) and not f.file.endswith(('IMAPParser.hpp', 'Response.cpp'))

    def direct(self, eng, f):
        return f.file.startswith('vmime/net/') and any(self.op(c) for c in f.calls()) or any(n['n'] in STATE or n['n'] in OPENED for n in f.nodes('mem')
                                                          if f.file.startswith(ROOTS))

    def op(self, e):
        if e['k'] != 'call':
            return None
        f = e.get('f', '')
        if f in PRIM:
            return 'reply'
        if f.endswith(('IMAPCommand::send', 'POP3Command::send')):
            return 'send'
        if f.endswith('POP3Response::readLargeResponse'):
            return 'large'
        if f.endswith('POP3Response::isSuccess'):
            return 'success'
        if f.endswith('::isBad') and 'IMAPParser' in f:
            return 'isbad'
        if NOTIFY.match(f):
            return 'notify'
        ns = self.P.names(e)
        if ns & FILE:
            return 'file'
        return None

    def session(self, eng, e):
        """Opening and closing the connection is not about the messages of a folder."""
        return e.get('f', '').startswith((IM + 'IMAPConnection::', IM + 'IMAPStore::')) and \
            e['f'] != IM + 'IMAPConnection::readResponse' and any(eng.relevant(t) for t in self.P.targets(e))

    # ---- where state changes
    def sink(self, eng, C, node, st, what):
        """Tags after an event was announced or cached state changed; reports it when it follows a failure."""
        self.n[what.split()[0]] = self.n.get(what.split()[0], 0) + 1
        if 'failed' in st.q:
            self.bad.setdefault('after:%s:%s' % (C.func.q, what), ('%s %s although the operation has failed' % (C.func.q, what), C.func, node.line, eng.trace()))
        if 'ok' not in st.q:
            return ('early',)
        return ()

    def changed(self, p):
        """State member named by a path."""
        if p is None or not p.count('.'):
            return None
        for n in re.split(r'[.\[]', re.sub(r'\[.*?\]', '', p)):
            if n in STATE:
                return n
        return None

    def at_assign(self, eng, C, node, st):
        if C.func.kind in ('ctor', 'dtor') or not C.func.file.startswith(ROOTS) or node.kind not in ('asg', 'inc'):
            return [st]
        x = node.e['x'] if node.kind == 'asg' else node.e['e']
        p = path_of(x, C.alias)
        m = self.changed(p)
        if m is None:
            ms = [y['n'] for y in walk(x) if y.get('k') == 'mem' and y['n'] in STATE]
            m = ms[0] if ms and p is None else None
        if m is None and p and p.rsplit('.', 1)[-1] in OPENED and p.count('.') and node.kind == 'asg':
            v = eng.val(node.e['y'], st, C)
            if v != ('c', 0) and v != ('c', -1):
                m = p.rsplit('.', 1)[-1]
        if m:
            t = self.sink(eng, C, node, st, 'changes ' + m)
            if t:
                return [st.with_q(st.q | set(t))]
        return [st]

    def marked(self, P, e, where):
        k = self.op(e)
        if where is None:
            return k is not None
        eng, C, node, st = where
        if k is None:
            if e['k'] == 'call' and (e.get('f') in UNREAD or self.session(eng, e)):
                return [(('unread ' + e['f'],), (), 'd', None)]
            if e['k'] == 'call' and e.get('f') == IM + 'IMAPFolder::processStatusUpdate':
                return [((), ('unseen',), 'd', None)]
            if e['k'] == 'call' and e.get('f') == 'std::make_shared' and 'events::folderEvent' in e['t'] and len(e['a']) > 1:
                v = self.types.get(eng.val(e['a'][1], st, C)[1]) if (eng.val(e['a'][1], st, C) or ('',))[0] == 'c' else None
                return [(('type %s' % v,), (), 'd', None)]
            if e['k'] == 'call' and e.get('f') in IGNORED:
                # a folder that is read anew starts from what is there, whatever happened before
                return [(('ign ' + e['f'],), ('failed',) if e['f'].endswith('scanFolder') else (), 'd', None)]
            if e['k'] == 'call' and e.get('o') is not None and not e.get('const') and not transparent(e) and \
                    C.func.file.startswith(ROOTS) and C.func.kind not in ('ctor', 'dtor'):
                o = e['o']
                while o['k'] == 'cast':
                    o = o['e']
                l = e.get('f', '').rsplit('::', 1)[-1]
                if o['k'] in ('mem', 'ref') and l not in ('begin', 'end', 'operator[]', 'reserve', 'at', 'front', 'back', 'find', 'lock', 'size', 'operator->'):
                    m = self.changed(path_of(o, C.alias))
                    ts = P.targets(e)
                    if m and not (ts and not any(eng.fx.mods(t) for t in ts)):
                        t = self.sink(eng, C, node, st, 'changes ' + m)
                        if t:
                            return [(t, (), 'd', None)]
            return None
        o = eng.val(e['o'], st, C) if e.get('o') is not None else None
        if k == 'reply':
            self.n['reply'] = self.n.get('reply', 0) + 1
            new = ('ok',)
            if e['f'].startswith(IM) and not any(t.startswith('unread ') for t in st.q):
                new = ('ok', 'unseen') + (('missed',) if 'unseen' in st.q else ())
            return [(new, ('failed',), 'n', OK, (nonnull(OK),)), (('failed',), (), 'n', BAD, (nonnull(BAD),)),
                    (('failed',), (), 'x', 'vmime?')]
        if k == 'send':
            return [((), (), 'n', None), (('failed',), (), 'x', 'vmime?')]
        if k == 'large':
            return [(('ok',), ('failed',), 'n', None), (('failed',), (), 'x', 'vmime?')]
        if k == 'success':
            return [((), (), 'n', ('c', 1 if o == OK else 0))] if o in (OK, BAD) else None
        if k == 'isbad':
            if o == OK:
                return [((), (), 'n', ('c', 0))]
            if o == BAD:
                return [((), (), 'n', ('c', 0)), ((), (), 'n', ('c', 1))]
            return None
        if k == 'file':
            self.n['file'] = self.n.get('file', 0) + 1
            if any(t.startswith('ign ') for t in st.q):
                return [(('ok',), ('failed',), 'n', None), ((), (), 'x', FS)]
            if C.func.q in OPTIONAL and 'ok' in st.q and 'failed' not in st.q:
                return [((), (), 'n', None), ((), (), 'x', FS)]
            return [(('ok',), ('failed',), 'n', None), (('failed',), (), 'x', FS)]
        if k == 'notify':
            t = self.sink(eng, C, node, st, 'announces an event')
            return [(tuple(t) + ('announced',), (), 'n', None)]
        return None

    def map_back(self, eng, C, node, t, q):
        return q - {'ign ' + t.q, 'unread ' + t.q}

    def memval(self, eng, C, e, st):
        if e['n'] == 'status' and e.get('q', '').endswith('resp_cond_state::status'):
            b = e['b']
            while b is not None:
                v = eng.val(b, st, C)
                if v == BAD:
                    return ('c', self.codes['no'])
                if v == OK:
                    return ('c', self.codes['ok'])
                b = b['b'] if b['k'] == 'mem' else b['o'] if b['k'] == 'call' and transparent(b) else None
        if e['n'] == 'continue_req' and 'failed' in st.q:
            return ('c', 0)
        return None


def renamed(P, ctx):
    """A folder below the renamed one gets the new path with what follows the renamed folder's path kept."""
    n = 0
    for f in P.fn:
        if not f.file.startswith('vmime/net/') or f.d.get('body') is None:
            continue
        local = {v['d']: v for d in f.nodes('decl') for v in d['v'] if v.get('d') is not None}
        asg = {a['x']['d'] for a in f.nodes('asg') if a['x'].get('k') == 'ref' and 'd' in a['x']}
        for c in f.calls():
            if c.get('f') != U + 'path::renameParent' or len(c['a']) != 2:
                continue
            n += 1
            own = path_of(c['o'], {})
            a = c['a'][0]
            seen = set()
            while a['k'] == 'ref' and a.get('dk') == 'local' and a['d'] in local and a['d'] not in asg and a['d'] not in seen:
                seen.add(a['d'])
                a = local[a['d']].get('init') or {'k': '?'}
                while a['k'] == 'cast' or (a['k'] == 'ctor' and len(a['a']) == 1):
                    a = a['e'] if a['k'] == 'cast' else a['a'][0]
            ok = own is None or path_of(a, {}) != own
            ctx.ob('the parent that is renamed is not the folder itself', ctx.at(f, c['l']), ok)
            ctx.funcs.add(f.sig())
            if not ok:
                ctx.violation('renameParent:' + f.q, '%s replaces the whole path of a sub-folder by the new path of its parent' % f.q, f.file, c['l'], None, f.q)
    ctx.need('paths of sub-folders that follow their parent', n, 2)


def lowered(P, ctx):
    """The number of messages goes down when messages are announced as removed."""
    down = {}

    def lowers(f):
        if f.id not in down:
            r = False
            for x in f.nodes('asg'):
                if x.get('op') in ('-', '=', None, '') and any(y.get('k') == 'mem' and y['n'] in ('m_count', 'm_messageCount') for y in walk(x['x'])):
                    r = r or x.get('op') == '-' or any(y.get('k') == 'bin' and y.get('op') == '-' for y in walk(x['y']))
            for x in f.nodes('un'):
                if x['op'] == '--' and any(y.get('k') == 'mem' and y['n'] in ('m_count', 'm_messageCount') for y in walk(x['e'])):
                    r = True
            down[f.id] = r
        return down[f.id]
    n = 0
    for f in P.fn:
        if not f.file.startswith(ROOTS) or f.d.get('body') is None:
            continue
        made = [c for c in f.calls() if c.get('f') == 'std::make_shared' and 'events::messageCountEvent' in c['t'] and len(c['a']) > 1 and
                c['a'][1].get('n') == 'TYPE_REMOVED']
        if not made:
            continue
        n += 1
        todo, seen, ok = [f], {f.id}, False
        while todo and not ok:
            g = todo.pop()
            ok = lowers(g)
            for c in g.calls():
                for t in P.targets(c):
                    if t.id not in seen and t.file.startswith(ROOTS) and 'IMAPParser' not in t.file:
                        seen.add(t.id)
                        todo.append(t)
        ctx.ob('the message count goes down when messages are removed', ctx.at(f, made[0]['l']), ok)
        ctx.funcs.add(f.sig())
        if not ok:
            ctx.violation('lowered:' + f.q, '%s announces removed messages and does not lower the message count' % f.q, f.file, made[0]['l'], None, f.q)
    ctx.need('announcements of removed messages', n, 2)


def linear(e, local, asg, depth=0):
    """Constant of a sum of terms, and whether it has other terms."""
    k = e['k']
    if e.get('cv') is not None and isinstance(e['cv'], int):
        return e['cv'], False
    if k == 'int':
        return int(e['v']), False
    if k == 'cast' or (k == 'ctor' and len(e['a']) == 1):
        return linear(e['e'] if k == 'cast' else e['a'][0], local, asg, depth)
    if k == 'bin' and e['op'] in ('+', '-'):
        a, b = linear(e['x'], local, asg, depth), linear(e['y'], local, asg, depth)
        if a and b:
            return a[0] + (b[0] if e['op'] == '+' else -b[0]), a[1] or b[1]
        return None
    if k == 'ref' and e.get('dk') == 'local' and e['d'] in local and depth < 5:
        if e['d'] in asg or local[e['d']].get('init') is None:
            return 0, True
        return linear(local[e['d']]['init'], local, asg, depth + 1)
    if k in ('mem', 'ref', 'call'):
        return 0, True
    return None


def numbered(P, ctx):
    """Messages that arrived are numbered from the one after the last that was there."""
    n = 0
    for f in P.fn:
        if not f.file.startswith(ROOTS) or f.d.get('body') is None:
            continue
        vec = {y['d'] for c in f.calls() if c.get('f') == 'std::make_shared' and 'events::messageCountEvent' in c['t'] and len(c['a']) > 2 and
               c['a'][1].get('n') == 'TYPE_ADDED' for y in walk(c['a'][2]) if y.get('k') == 'ref' and y.get('dk') == 'local'}
        if not vec:
            continue
        n += 1
        local = {v['d']: v for d in f.nodes('decl') for v in d['v'] if v.get('d') is not None}
        asg = {a['x']['d'] for a in f.nodes('asg') if a['x'].get('k') == 'ref' and 'd' in a['x']} | \
            {u['e']['d'] for u in f.nodes('un') if u['op'] in ('++', '--') and u['e'].get('k') == 'ref' and 'd' in u['e']}
        put = [c['a'][0] for c in f.calls() if c.get('f', '').endswith('::push_back') and c.get('o') is not None and
               c['o'].get('k') == 'ref' and c['o'].get('d') in vec and len(c['a']) == 1]
        put += [a['y'] for a in f.nodes('asg') if a['x'].get('k') in ('call', 'idx') and
                any(y.get('k') == 'ref' and y.get('d') in vec for y in walk(a['x']))]
        for d in sorted(vec):
            how = [c for c in f.calls() if c.get('o') is not None and c['o'].get('k') == 'ref' and c['o'].get('d') == d and
                   c.get('f', '').rsplit('::', 1)[-1] in ('resize', 'push_back', 'assign', 'insert', 'emplace_back', 'operator=', 'swap')]
            init = local[d].get('init') if d in local else None
            passed = any(y.get('k') == 'ref' and y.get('d') == d for c in f.calls() for a in c['a'] for y in walk(a)
                         if c.get('f') != 'std::make_shared')
            full = bool(how) or passed or d not in local or (init is not None and bool(init.get('a')))
            ctx.ob('the list of new messages has elements', ctx.at(f, local[d]['l'] if d in local else f.line), full)
            if not full:
                ctx.violation('unfilled:' + f.q, '%s announces new messages with a list that has no elements' % f.q, f.file,
                              local[d]['l'], None, f.q)
        ok = True
        for e in put:
            while e['k'] == 'cast':
                e = e['e']
            # the numbers count up from what the variable starts with
            if e['k'] == 'ref' and e.get('dk') == 'local' and e['d'] in asg and local.get(e['d'], {}).get('init') is not None:
                v = linear(local[e['d']]['init'], local, asg)
                ok = ok and not (v and v[1] and v[0] < 1)
        ctx.ob('new messages are numbered after those that were there', ctx.at(f), ok)
        ctx.funcs.add(f.sig())
        if not ok:
            ctx.violation('numbered:' + f.q, '%s announces as new a message that was there before' % f.q, f.file, f.line, None, f.q)
    ctx.need('announcements of new messages', n, 1)


def polarity(e, pos=True):
    """Whether a message that has been seen makes the condition true (True) or false (False); None without such a test."""
    k = e['k']
    if k == 'cast' or (k == 'ctor' and len(e['a']) == 1):
        return polarity(e['e'] if k == 'cast' else e['a'][0], pos)
    if k == 'un' and e['op'] == '!':
        return polarity(e['e'], not pos)
    if k == 'bin' and e['op'] == '&':
        return pos if any(y.get('k') == 'ref' and y.get('n') == 'FLAG_SEEN' for y in walk(e)) else None
    if k == 'bin' and e['op'] in ('==', '!='):
        for a, b in ((e['x'], e['y']), (e['y'], e['x'])):
            p = polarity(a, pos)
            if p is not None:
                zero = b.get('cv') == 0
                return p if (e['op'] == '!=') == zero else not p
        return None
    if k == 'bin' and e['op'] in ('&&', '||'):
        p = polarity(e['x'], pos)
        return p if p is not None else polarity(e['y'], pos)
    return None


def unread(P, ctx):
    """Messages that count as unread are the ones that have not been seen."""
    n = 0
    for f in P.fn:
        if not f.file.startswith('vmime/net/maildir/') or f.d.get('body') is None:
            continue
        vs = {y['d'] for a in f.nodes('asg') if a['x'].get('k') == 'mem' and a['x']['n'] == 'm_unreadMessageCount'
              for y in walk(a['y']) if y.get('k') == 'ref' and y.get('dk') == 'local'}

        def counts(u):
            e = u['e'] if u['k'] == 'un' else u['x']
            up = u['op'] == '++' if u['k'] == 'un' else u.get('op') == '+'
            return up and ((e.get('k') == 'mem' and e['n'] == 'm_unreadMessageCount') or (e.get('k') == 'ref' and e.get('d') in vs))
        for s in f.nodes('if'):
            if s.get('c') is None:
                continue
            p = polarity(s['c'])
            if p is None:
                continue
            for br, seen in ((s.get('x'), p), (s.get('y'), not p)):
                if br is None:
                    continue
                for u in walk(br):
                    if u.get('k') in ('un', 'asg') and counts(u):
                        n += 1
                        ctx.ob('unread messages are those not seen', ctx.at(f, u['l']), not seen)
                        ctx.funcs.add(f.sig())
                        if seen:
                            ctx.violation('unread:' + f.q, '%s counts a message as unread because it has been seen' % f.q, f.file, u['l'], None, f.q)
    ctx.need('unread messages that are counted', n, 1)


def positions(P, ctx):
    """What leaves the cached list is what the numbers of the removed messages say; numbers are compared before they move."""
    n = m = 0
    for f in P.fn:
        if not f.file.startswith(ROOTS) or f.d.get('body') is None:
            continue
        local = {v['d']: v for d in f.nodes('decl') for v in d['v'] if v.get('d') is not None}
        sizes = {}
        for s in f.nodes('for'):
            if s.get('in0') is None or s['in0'].get('k') != 'decl':
                continue
            for v in s['in0']['v']:
                for e in ([v['init']] if v.get('init') is not None else []) + ([s['c']] if s.get('c') is not None else []):
                    for y in walk(e):
                        if y.get('k') == 'call' and y.get('f', '').endswith('::size') and y.get('o') is not None and path_of(y['o'], {}):
                            sizes.setdefault(v['d'], path_of(y['o'], {}))

        def source(e, depth=0):
            """Names of the lists a position comes from."""
            r = set()
            if e['k'] == 'ref' and e.get('dk') == 'local' and e['d'] in local:
                if e['d'] in sizes:
                    return {sizes[e['d']]}
                i = local[e['d']].get('init')
                return source(i, depth + 1) if i is not None and depth < 5 else {'?'}
            if e['k'] == 'bin':
                return source(e['x'], depth) | source(e['y'], depth)
            if e['k'] == 'cast' or (e['k'] == 'ctor' and len(e['a']) == 1):
                return source(e['e'] if e['k'] == 'cast' else e['a'][0], depth)
            if e['k'] == 'int':
                return set()
            return {'?'}
        for c in f.calls():
            if not c.get('f', '').endswith('::erase') or c.get('o') is None or c['o'].get('k') != 'mem' or c['o']['n'] != 'm_messageInfos':
                continue
            n += 1
            own = path_of(c['o'], {})
            ok = True
            for y in walk(c['a'][0]):
                if y.get('k') == 'call' and y.get('op') in ('+', '+=') and y.get('o') is not None and y['a']:
                    src = source(y['a'][0])
                    ok = ok and not (src and '?' not in src and own not in src)
            ctx.ob('what leaves the cached list is what was removed', ctx.at(f, c['l']), ok)
            if not ok:
                ctx.violation('position:' + f.q, '%s removes from the cached list what is at the position of another list' % f.q, f.file, c['l'], None, f.q)
        for s in f.nodes('for'):
            inc = s.get('inc')
            if inc is None or inc.get('k') != 'un' or inc['op'] != '++' or inc['e'].get('k') != 'ref':
                continue
            d = inc['e'].get('d')
            for i in walk(s['b']):
                if i.get('k') != 'if' or i['c'].get('k') != 'bin' or i['c']['op'] not in ('>', '<', '>=', '<='):
                    continue
                ns = [y for y in (i['c']['x'], i['c']['y']) if y.get('k') == 'mem' and y['n'] == 'm_num']
                vs = [y for y in (i['c']['x'], i['c']['y']) if y.get('k') == 'ref' and y.get('d') == d]
                if not ns:
                    continue
                moves = i.get('x') is not None and any(
                    y.get('k') in ('un', 'asg') and y.get('op') in ('--', '-') and
                    any(z.get('k') == 'mem' and z['n'] == 'm_num' for z in walk(y['e'] if y['k'] == 'un' else y['x'])) for y in walk(i['x']))
                if moves:
                    m += 1
                    ctx.ob('numbers are compared as they are now', ctx.at(f, i['l']), not vs)
                    ctx.funcs.add(f.sig())
                    if vs:
                        ctx.violation('renumber:' + f.q, '%s compares the number a message had before with the one it has by now' % f.q, f.file, i['l'], None, f.q)
    ctx.count('removals from the cached list', n)
    ctx.count('renumbered messages', m)


def check(P, ctx):
    ctx.rule('Every public operation of the IMAP, POP3 and maildir folders and messages is followed path-sensitively, '
             'callees and exception handlers included. A reply is good or bad, sending may fail, and so may every operation '
             'on a file. A path on which an operation has failed announces no event and changes no cached number, path, flag '
             'or list; a path on which events or cached state come first does not fail afterwards; an operation that '
             'succeeded has announced the event of its kind, and has looked at what an IMAP reply says besides.')
    ctx.assumptions += ['%s: %s' % (k, v) for k, v in sorted(list(IGNORED.items()) + list(OPTIONAL.items()))]
    ctx.assumptions.append('not looked at for other news of the folder: the replies to ' + ', '.join(sorted(UNREAD)))
    renamed(P, ctx)
    lowered(P, ctx)
    numbered(P, ctx)
    unread(P, ctx)
    positions(P, ctx)
    codes = {'no': P.enum_value('vmime::net::imap::IMAPParser::resp_cond_state::Status', 'NO'),
             'ok': P.enum_value('vmime::net::imap::IMAPParser::resp_cond_state::Status', 'OK')}
    rel = None
    n, roots, announced, seen = {}, 0, 0, {}
    classes = P.subclasses('vmime::net::folder') | P.subclasses('vmime::net::message')
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if not f.file.startswith(ROOTS) or f.d.get('body') is None or f.d.get('acc') != 'public' or f.kind in ('ctor', 'dtor') \
                or f.cls not in classes:
            continue
        r = Order(P, codes)
        eng = Engine(P, r, ctx.fx)
        if rel is not None:
            eng.rel = rel
        if not eng.relevant(f):
            rel = eng.rel
            continue
        outs = eng.run(f, frozenset((['ign ' + f.q] if f.q in IGNORED else []) + (['unread ' + f.q] if f.q in UNREAD else [])), {})
        rel = eng.rel
        ctx.absorb(eng)
        roots += 1
        name = f.q.rsplit('::', 1)[-1]
        # IMAP announces what concerns messages when the server reports it
        own = name in ANNOUNCE and f.cls in P.subclasses('vmime::net::folder') and (ANNOUNCE[name] or not f.q.startswith(IM))
        for kind, exc, rv, q, of in outs:
            if kind == 'x' and 'early' in q and 'failed' in q:
                r.bad.setdefault('before:' + f.q, ('%s announces an event or changes the cached state before its operation '
                                                   'has succeeded' % f.q, f, f.line, None))
            if kind == 'n' and ('unseen' in q or 'missed' in q):
                r.bad.setdefault('unseen:' + f.q, ('%s can succeed without looking at what the reply says about the folder' % f.q, f, f.line, None))
            w = ANNOUNCE.get(name) if own else None
            if w is not None and kind == 'n' and 'ok' in q and 'failed' not in q:
                if 'announced' not in q:
                    r.bad.setdefault('silent:' + f.q, ('%s can succeed without announcing an event' % f.q, f, f.line, None))
                elif w and {t for t in q if t.startswith('type ')} != {'type ' + w}:
                    r.bad.setdefault('type:' + f.q, ('%s does not announce an event of type %s' % (f.q, w), f, f.line, None))
        announced += bool(own)
        ctx.ob('events and cached state follow the operation', ctx.at(f), not r.bad)
        for k, c in r.n.items():
            n[k] = n.get(k, 0) + c
        for key, x in r.bad.items():
            seen.setdefault(key, x + (f,))
    for key, (msg, g, line, tr, f) in sorted(seen.items()):
        ctx.violation(key, msg, g.file, line, tr, f.q)
    for k, c in sorted(n.items()):
        ctx.count('events: ' + k, c)
    ctx.need('operations that announce what they did', announced, 6)
    ctx.need('operations of folders and messages', roots, 50)
