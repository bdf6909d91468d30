"""A message appears in a maildir folder only under the name of a file that is complete."""
from ..engine import Engine
from ..mustpass import MustPass, G, nonnull
from ..program import walk
from .C16 import noreturn

U = 'vmime::utility::'
O_CREAT, O_EXCL = 0o100, 0o200
FS = 'vmime::exceptions::filesystem_exception'
ANY = 'vmime::exception'
PATHS = U + 'file::path'
FOLDER = ('vmime/net/maildir/',)
ENTER = ('vmime/net/maildir/', 'vmime/utility/stream')
# Source of bytes and what it may raise: a message part, a file, a socket.
EXC = {'read': ANY, 'eof': None, 'write': FS, 'flush': FS, 'createFile': FS, 'getFileWriter': FS, 'getOutputStream': FS,
       'rename': FS, 'remove': FS}


def op(P, e):
    if e['k'] != 'call':
        return None
    f = e.get('f', '')
    if e.get('op') == '/' and 'path' in e.get('ot', '') + e.get('t', '') and f.startswith(U):
        return 'join'
    for n in P.names(e):
        if n.endswith('maildirFormat::folderPathToFileSystemPath'):
            return 'dir'
        if n == U + 'fileSystemFactory::create':
            return 'obj'
        if n.startswith(U + 'file::'):
            n = n.rsplit('::', 1)[-1]
            if n in ('createFile', 'getFileWriter', 'rename', 'remove'):
                return n
        if n == U + 'fileWriter::getOutputStream':
            return 'getOutputStream'
        if n.startswith((U + 'inputStream::', U + 'outputStream::')):
            n = n.rsplit('::', 1)[-1]
            if n in ('read', 'eof', 'write', 'flush'):
                return n
    return None


class Marks:
    def __init__(self, P, ctx, kinds):
        self.P, self.ctx, self.kinds = P, ctx, kinds
        self.bad = {}
        self.n = {}

    def report(self, where, key, msg):
        eng, C, node, st = where
        self.bad.setdefault(key + ':' + C.func.q, (msg % C.func.q, C.func, node.line, eng.trace()))

    def dirs(self, where, e):
        """Directories that a call to folderPathToFileSystemPath may stand for."""
        eng, C, node, st = where
        a = e['a'][1] if len(e['a']) > 1 else None
        v = eng.val(a, st, C)
        if v[0] == 'c':
            return {self.kinds.get(v[1], '?')}
        out = {self.kinds.get(x['cv'], '?') for x in walk(a) if x.get('k') == 'ref' and x.get('dk') == 'enum' and 'cv' in x}
        return out or {'?'}

    def __call__(self, P, e, where):
        k = op(P, e)
        if k is None:
            return None
        if where is None:
            return k in ('createFile', 'getFileWriter', 'rename', 'remove', 'getOutputStream', 'read', 'write')
        eng, C, node, st = where

        def v(x):
            y = eng.val(x, st, C)
            if y[0] == 's' and y[1][0] == 'G':
                return y[1][1]
            return None
        if k == 'dir':
            g = G('path ' + '|'.join(sorted(self.dirs(where, e))))
            return [((), (), 'n', g)]
        if k == 'join':
            xs = ([e['o']] if e.get('o') is not None else []) + e['a']
            s = v(xs[0])
            return [((), (), 'n', G(s))] if s and s.startswith('path ') else None
        if k == 'obj':
            s = v(e['a'][0])
            if s and s.startswith('path '):
                g = G('file ' + s[5:])
                return [((), (), 'n', g, (nonnull(g),))]
            return None
        q = st.q
        o = v(e['o']) if e.get('o') is not None else None
        tmp = o == 'file tmp'
        known = o is not None and o.startswith('file ')
        if k in ('createFile', 'getFileWriter'):
            self.n[k] = self.n.get(k, 0) + 1
            if known and set(o[5:].split('|')) & {'cur', 'new'}:
                self.report(where, 'in-place:' + k, 'a message file is created or written under its final name in %s')
            if not tmp:
                return None
            if k == 'createFile':
                return [(('created',), ('removed', 'flushed', 'eof', 'failed', 'delivered'), 'n', None), (('failed',), (), 'x', FS)]
            if 'created' not in q:
                self.report(where, 'not-created', 'the temporary file is written without having been created (exclusively) in %s')
            return [((), (), 'n', None), (('failed',), (), 'x', FS)]
        if k == 'remove':
            if tmp:
                return [(('removed',), ('created',), 'n', None), (('removed',), ('created',), 'x', FS)]
            return None
        if k == 'rename':
            self.n[k] = self.n.get(k, 0) + 1
        if 'created' not in q:
            if k == 'rename' and tmp:
                self.report(where, 'rename-nothing', 'a temporary file that was not written is renamed in %s')
            return None
        if k == 'rename':
            if not (tmp or o is None):
                return None
            d = v(e['a'][0])
            if d and not set(d[5:].split('|')) & {'cur', 'new'}:
                self.report(where, 'destination', 'the temporary file is not moved to cur or new in %s')
            if 'failed' in q:
                self.report(where, 'incomplete', 'the message gets its final name although writing it failed in %s')
            elif 'eof' not in q:
                self.report(where, 'not-all', 'the message gets its final name before everything was read in %s')
            elif 'flushed' not in q:
                self.report(where, 'not-flushed', 'the message gets its final name before everything was written out in %s')
            return [(('delivered',), ('created',), 'n', None), (('failed',), (), 'x', FS)]
        if k != 'rename':
            self.n[k] = self.n.get(k, 0) + 1
        if k == 'eof':
            return [(('eof',), (), 'n', ('c', 1)), ((), ('eof',), 'n', ('c', 0))]
        add, drop = {'read': ((), ('eof',)), 'write': ((), ('flushed',)), 'flush': (('flushed',), ()), 'getOutputStream': ((), ())}[k]
        return [(add, drop, 'n', None), (('failed',), (), 'x', EXC[k])]


def check(P, ctx):
    ctx.rule('Typestate of the temporary file, computed path-sensitively (callees and exception handlers included) for '
             'every operation of the maildir classes. Directory values come from folderPathToFileSystemPath() and keep '
             'their kind through variables, parameters and the file objects made from them. A file of cur or new is '
             'never created or opened for writing; the temporary file is renamed only after it was created, the source '
             'reported its end, and the last write was followed by a flush, with no failure on the way; when anything '
             'fails the operation ends with an exception after the temporary file was removed.')
    ctx.assumptions += ['rename() of the system is atomic', 'names given by maildirUtils::generateId() are unique']
    kinds = {}
    for n, s in (('TMP', 'tmp'), ('CUR', 'cur'), ('NEW', 'new'), ('ROOT', 'root'), ('CONTAINER', 'container')):
        kinds[P.enum_value('vmime::net::maildir::maildirFormat::DirectoryType', n + '_DIRECTORY')] = s
    ctx.need('kinds of directories', len(kinds), 5)
    roots, total, seen = 0, {}, {}
    rel = None
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if not f.file.startswith(FOLDER) or f.d.get('body') is None or f.d.get('acc') != 'public' or f.kind in ('ctor', 'dtor'):
            continue
        m = Marks(P, ctx, kinds)
        rule = MustPass(m, enter=lambda g: g.file.startswith(ENTER))
        rule.exc_types = True
        eng = Engine(P, rule, ctx.fx)
        if rel is not None:
            eng.rel = rel
        if not eng.relevant(f):
            rel = eng.rel
            continue
        roots += 1
        outs = eng.run(f, frozenset(), {})
        rel = eng.rel
        ctx.absorb(eng)
        ctx.funcs.add(f.sig())
        for k, c in m.n.items():
            total[k] = total.get(k, 0) + c
        for kind, exc, rv, q, of in outs:
            if kind == 'n' and 'failed' in q and 'delivered' not in q:
                m.bad.setdefault('returns:' + f.q, ('%s returns normally although the message could not be delivered' % f.q, f, f.line, None))
            if kind == 'n' and 'created' in q:
                m.bad.setdefault('undelivered:' + f.q, ('%s returns normally and leaves the message in tmp' % f.q, f, f.line, None))
            if kind == 'x' and 'created' in q:
                m.bad.setdefault('left:' + f.q, ('%s can fail without having removed the temporary file' % f.q, f, f.line, None))
        ctx.ob('messages are delivered through tmp, complete, or not at all', ctx.at(f), not m.bad)
        for key, (msg, g, line, tr) in m.bad.items():
            seen.setdefault(key, (msg, g, line, tr, f))
    for key, (msg, g, line, tr, f) in sorted(seen.items()):
        ctx.violation(key, msg, g.file, line, tr, f.q)
    for k, v in sorted(total.items()):
        ctx.count('events: ' + k, v)
    ctx.need('operations that use message files', roots, 4)
    ctx.need('renames of files', total.get('rename', 0), 10)
    # the file classes: the new name of a file never shows another, unfinished file
    n = 0
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if f.name != 'rename' or not f.cls or not P.derives(f.cls, U + 'file') or f.d.get('body') is None:
            continue
        n += 1
        bad = [c for c in f.calls() if (c.get('f', '').rsplit('::', 1)[-1] in ('createFile', 'creat', 'open', 'getFileWriter'))]
        ctx.ob('renaming a file is the only thing that makes its new name appear', ctx.at(f), not bad)
        for c in bad[:1]:
            ctx.violation('placeholder:' + f.q, '%s creates the destination before it renames the file: an empty file has the new name in between'
                          % f.q, f.file, c['l'], None, f.q)
    ctx.need('implementations of file::rename', n, 1)
    # a file that exists already is not taken over; what was flushed survives a crash
    n = 0
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if f.name != 'createFile' or not f.cls or not P.derives(f.cls, U + 'file') or f.d.get('body') is None:
            continue
        for c in f.calls():
            if c.get('f') not in ('open', 'open64') or len(c['a']) < 2 or 'cv' not in c['a'][1]:
                continue
            n += 1
            ok = c['a'][1]['cv'] & (O_CREAT | O_EXCL) == (O_CREAT | O_EXCL)
            ctx.ob('a file is created exclusively', ctx.at(f, c['l']), ok)
            if not ok:
                ctx.violation('exclusive:' + f.q, '%s takes over a file that exists already' % f.q, f.file, c['l'], None, f.q)
    ctx.need('files created by the system', n, 1)
    n = 0
    nr = noreturn(P)

    def sync(P, e, where):
        if e['k'] == 'call' and P.targets(e) and all(t in nr for t in P.targets(e)):
            return False if where is None else [((), (), 'x', None)]
        if e['k'] == 'call' and e.get('ec') and e.get('f') in ('fsync', 'fdatasync'):
            return True if where is None else [(('sync',), (), 'n', ('c', 0)), ((), (), 'n', ('c', -1))]
        return None
    for g in sorted(P.fn, key=lambda f: f.sig()):
        if g.name != 'getOutputStream' or not g.cls or not P.derives(g.cls, U + 'fileWriter') or g.d.get('body') is None:
            continue
        cls = {c for x in g.nodes('call', 'new') for c in P.subclasses(U + 'outputStream') if c in x.get('t', '')}
        for f in [f for c in sorted(cls) for f in P.byq.get(c + '::flush', []) if f.d.get('body') is not None]:
            n += 1
            eng = Engine(P, MustPass(sync, enter=lambda h: h.file.startswith('vmime/platforms/')), ctx.fx)
            bad = [o for o in eng.run(f, frozenset(), {}) if o[0] == 'n' and 'sync' not in o[3]]
            ctx.absorb(eng)
            ctx.ob('flushing a file writes it to the disk', ctx.at(f), not bad)
            if bad:
                ctx.violation('sync:' + f.q, '%s can return normally although the data is not on the disk' % f.q, f.file, f.line, None, f.q)
    ctx.need('output streams of files', n, 1)
