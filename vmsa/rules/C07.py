"""Folder/store/transport operations outside their required state fail before any effect."""
from ..assume import Checker, const
from ..engine import path_of
from ..program import walk

FOLDER = 'vmime::net::folder'
NEED_OPEN = ['getMessage', 'getMessages', 'getMessageCount', 'fetchMessages', 'fetchMessage', 'getAndFetchMessages',
             'deleteMessages', 'setMessageFlags', 'addMessage', 'copyMessages', 'expunge', 'close', 'getMode',
             'getMessageNumbersStartingOnUID', 'getUIDValidity', 'getHighestModSequence',
             'getMessageNumbersMatchingSearchAttributes', 'getMessageUIDsMatchingSearchAttributes']
NEED_RW = ['deleteMessages', 'setMessageFlags', 'addMessage', 'expunge']
NEED_CLOSED = ['create', 'destroy']
NEED_STORE = ['open', 'create', 'destroy', 'fetchMessages', 'fetchMessage', 'deleteMessages', 'setMessageFlags',
              'addMessage', 'expunge', 'rename', 'copyMessages', 'status', 'getStatus', 'noop']
NEED_STORE_CLOSED = ['exists', 'getFolder', 'getFolders']

# disconnecting a local store twice is harmless: nothing is sent, changed or announced
IDEMPOTENT = {'vmime::net::maildir::maildirStore::disconnect'}

SOCK = {'vmime::net::socket::' + n for n in ('send', 'sendRaw', 'sendRawNonBlocking', 'receive', 'receiveRaw', 'connect')}
FILES = {'vmime::utility::file::' + n for n in ('createFile', 'createDirectory', 'rename', 'remove', 'getFileWriter')} | \
        {'vmime::utility::fileWriter::getOutputStream', 'vmime::utility::childProcess::start',
         'vmime::utility::childProcessFactory::create'}
NOTIFY = {'vmime::net::folder::notify' + n for n in ('MessageChanged', 'MessageCount', 'Folder', 'Event', '')}


def effect(P, e):
    if e['k'] != 'call':
        return None
    names = P.names(e)
    if names & SOCK:
        return 'network I/O'
    if names & FILES:
        return 'file system or process change'
    for n in names:
        if n.startswith('vmime::net::folder::notify'):
            return 'event notification'
    return None


def impls(P, base, name):
    """Implementations of base::name (and of same-named public methods of the subclasses)."""
    out = []
    for c in sorted(P.subclasses(base) | {base}):
        for f in P.byq.get(c + '::' + name, []):
            if f.d.get('body') is not None and f.d.get('acc') == 'public' and not f.d.get('implicit'):
                out.append(f)
    return out


def ret_fields(f):
    """Fields of this returned by f."""
    out = set()
    for s in walk(f.d['body']):
        if s.get('k') == 'ret' and s.get('e') is not None:
            p = path_of(s['e'])
            if p and p.startswith('this.'):
                out.add(p)
    return out


def trivial(f):
    """Nothing to do in this implementation."""
    return not f.d['body'].get('b')


def state_fields(P, cls, name):
    """Fields realising a query such as isOpen()/getMode() in cls."""
    out = set()
    for c in [cls] + P.bases(cls):
        for f in P.byq.get(c + '::' + name, []):
            if f.d.get('body') is not None:
                return ret_fields(f)
    return out


def check(P, ctx):
    ctx.rule('Each public operation of every store, folder and transport class is analysed path-sensitively from an '
             'entry state in which its required state does not hold (folder not open; opened read-only; already open; '
             'parent store gone; service not connected; already connected). From that state no path may reach a socket, '
             'file, process or notification call (through any callee), and no path may return normally.')
    folders = sorted(c for c in P.subclasses(FOLDER) if c.startswith('vmime::net::') and not P.rec(c).get('abstract'))
    ctx.need('concrete folder classes', len(folders), 3)
    n_ro = P.enum_value('vmime::net::folder::Modes', 'MODE_READ_ONLY')
    cnt = {'open': 0, 'ro': 0, 'closed': 0, 'store': 0, 'conn': 0, 'already': 0}

    def verdict(kind, what, f, hits, outs, must_throw=True):
        ok = True
        for (w, fq), (g, line, tr) in sorted(hits.items()):
            ok = False
            ctx.violation('%s:%s:%s' % (kind, f.q, w), '%s: %s is reached although %s' % (f.q, w, what),
                          g.file, line, tr, f.q)
        if must_throw and any(o[0] == 'n' for o in outs):
            ok = False
            ctx.violation('%s:%s:returns' % (kind, f.q), '%s returns normally although %s' % (f.q, what),
                          f.file, f.line, None, f.q)
        ctx.ob('%s: fails without effect when %s' % (f.name, what), ctx.at(f), ok)

    for cls in folders:
        opn = state_fields(P, cls, 'isOpen')
        mode = state_fields(P, cls, 'getMode')
        ctx.need('state fields of ' + cls, min(len(opn), len(mode)), 1)
        reads = {p[5:] for p in opn | mode} | {'m_store'}

        def lockval(P_, e, where, value=const(0)):
            f = e.get('f', '')
            if f.startswith('std::weak_ptr<') and f.endswith('::lock') and e.get('o') is not None:
                o = e['o']
                t = o.get('t', '')
                if P_.derives(P_.norm(t[t.find('<') + 1:t.rfind('>')]), 'vmime::net::store'):
                    return value
            if e.get('f') == 'vmime::net::messageSet::isEmpty':
                return const(0)
            return None

        def alive(P_, e, where):
            return lockval(P_, e, where, ('nn', 'store'))
        plain = Checker(P, ctx.fx, ctx, effect=effect, reads=reads, callval=alive)
        gone = Checker(P, ctx.fx, ctx, effect=effect, reads=reads, callval=lockval)

        def impl(name):
            return [f for f in P.byq.get(cls + '::' + name, []) if f.d.get('body') is not None
                    and f.d.get('acc') == 'public']
        for name in NEED_OPEN:
            for f in impl(name):
                hits, outs = plain.run(f, {('p', p): ('c', 0) for p in opn}, cls)
                cnt['open'] += 1
                verdict('open', 'the folder is not open', f, hits, outs, not trivial(f))
        for name in NEED_RW:
            for f in impl(name):
                env = {('p', p): ('c', 1) for p in opn}
                env.update({('p', p): ('c', n_ro) for p in mode})
                hits, outs = plain.run(f, env, cls)
                cnt['ro'] += 1
                verdict('read-only', 'the folder was opened read-only', f, hits, outs, not trivial(f))
        for name in NEED_CLOSED:
            for f in impl(name):
                hits, outs = plain.run(f, {('p', p): ('c', 1) for p in opn}, cls)
                cnt['closed'] += 1
                verdict('closed', 'the folder is open', f, hits, outs)
        for name in NEED_STORE + NEED_STORE_CLOSED:
            for f in impl(name):
                env = {('p', p): ('c', 0) for p in opn} if name in NEED_STORE_CLOSED else {}
                hits, outs = gone.run(f, env, cls)
                cnt['store'] += 1
                verdict('store', 'the store is gone', f, hits, outs,
                                not trivial(f) and f.q not in IDEMPOTENT)
    for k, v in cnt.items():
        ctx.count('operations checked: ' + k, v)

    # services ------------------------------------------------------------------
    svcs = sorted(c for c in P.subclasses('vmime::net::service') if not P.rec(c).get('abstract'))
    ctx.need('concrete services', len(svcs), 8)
    conns = [c for c in sorted(P.records) if c.startswith('vmime::net::') and c.endswith('Connection')
             and P.byq.get(c + '::connect')]
    ctx.need('protocol connections', len(conns), 3)

    def connval(v):
        def cv(P_, e, where):
            f = e.get('f', '')
            if f.endswith('::isConnected') and e.get('o') is not None:
                o = e['o']
                p = path_of(o)
                if o['k'] == 'this' or p == 'this':
                    return const(v)
            return None
        return cv
    off = Checker(P, ctx.fx, ctx, effect=effect, callval=connval(0), reads={'m_connection'})
    on = Checker(P, ctx.fx, ctx, effect=effect, callval=connval(1), reads={'m_connection'})
    done = set()
    for cls in svcs + conns:
        for c in [cls] + [b for b in P.bases(cls) if b.startswith('vmime::net::')]:
            for name in ('send', 'noop', 'disconnect', 'getDefaultFolder', 'getRootFolder', 'getFolder', 'connect'):
                for f in P.byq.get(c + '::' + name, []):
                    if f.d.get('body') is None or f.d.get('acc') != 'public' or (f, name) in done or f.d.get('static'):
                        continue
                    if c == 'vmime::net::transport':
                        continue        # forwards to the virtual send() checked per class
                    done.add((f, name))
                    if name == 'connect':
                        hits, outs = on.run(f, {}, cls)
                        cnt['already'] += 1
                        verdict('already-connected', 'the service is already connected', f, hits, outs)
                    else:
                        hits, outs = off.run(f, {('p', 'this.m_connection'): ('c', 0)}, cls)
                        cnt['conn'] += 1
                        verdict('not-connected', 'the service is not connected', f, hits, outs,
                                not trivial(f) and f.q not in IDEMPOTENT)
    for k, v in cnt.items():
        ctx.counts['operations checked: ' + k] = v
