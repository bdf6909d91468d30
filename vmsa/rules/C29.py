"""What is parsed and generated does not depend on the locale of the program."""
import re
from ..cfg import cfg_of
from ..program import walk

CHARS = {'isalpha', 'isalnum', 'isspace', 'isblank', 'isupper', 'islower', 'ispunct', 'isprint', 'isgraph', 'iscntrl', 'tolower', 'toupper',
         'strcoll', 'strxfrm', 'strcasecmp', 'strncasecmp', 'strcasestr', 'stricmp', 'strnicmp', 'atof', 'strtod', 'strtof', 'strtold',
         'stod', 'stof', 'stold', 'strftime', 'wcscoll', 'towlower', 'towupper', 'iswalpha', 'iswspace', 'mbstowcs', 'wcstombs', 'mbtowc'}
NUMBER = re.compile(r'^(const |volatile )*(unsigned |signed )?(short|int|long|long long|float|double|long double|unsigned|__int128|'
                    r'(std::)?s?size_t|ssize_t)( int)?( &)?$')
INS = re.compile(r'^std::basic_[io]stream<.*>::operator(<<|>>)$')
STREAM = re.compile(r'^(const )?(std::(basic_)?([io]?stringstream|[io]?fstream)(<.*>)?)$')


def strip(e):
    while e is not None and e.get('k') == 'cast':
        e = e['e']
    return e


def root(e):
    e = strip(e)
    while e is not None and e.get('k') == 'call' and (e.get('op') in ('<<', '>>') or e.get('op') is None and 'stream' in (e.get('t') or '')):
        nx = e.get('o') if e.get('o') is not None else e['a'][0] if e.get('a') else None
        if nx is None:
            break
        e = strip(nx)
    return e


def check(P, ctx):
    ctx.rule('Each number that is written to or read from a string stream is followed back to the stream, through parameters to the '
             'callers and from members to the constructors: on all paths the stream was given the classic locale before. Character '
             'classes, case conversions and comparisons do not use functions that depend on the locale of the program, and facets are '
             'taken from the classic locale.')
    ctx.assumptions += ['texts that only go to the protocol trace or into the message of an exception may depend on the locale',
                        'a stream that the application passes has the locale the application wants']
    st = {'numbers': 0, 'streams': 0, 'sites': 0}
    fns, seen = [], set()
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if f.d.get('body') is not None and f.file.startswith('vmime/') and (f.d['id'], f.line) not in seen:
            seen.add((f.d['id'], f.line))
            fns.append(f)
    callers = {}
    for g in fns:
        for c in g.calls():
            if c.get('id'):
                callers.setdefault(c['id'], []).append((g, c))

    def classic(f, e, depth=0):
        e = strip(e)
        if e is None or depth > 4:
            return False
        if e.get('k') == 'call' and e.get('f') == 'std::locale::classic':
            return True
        if e.get('k') == 'ctor' and e.get('c') == 'std::locale' and e['a']:
            return classic(f, e['a'][0], depth + 1)
        if e.get('k') == 'ref' and e.get('d') is not None:
            for d in f.nodes('decl'):
                for v in d['v']:
                    if v.get('d') == e['d']:
                        return classic(f, v.get('init'), depth + 1)
        if e.get('k') == 'call' and e.get('f'):
            ts = [t for t in P.funcs.get(e.get('id')) or [] if t.d.get('body') is not None]
            rets = [r for t in ts[:1] for r in t.nodes('ret')]
            return bool(rets) and all(classic(ts[0], r.get('e'), depth + 1) for r in rets)
        return False

    def imbues(t, i, depth=0):
        """The function gives the stream in parameter i the classic locale."""
        if depth > 3 or i >= len(t.d['p']):
            return False
        d = t.d['p'][i].get('d')
        return any(sets(t, c, lambda r: r.get('k') == 'ref' and r.get('d') == d, depth + 1) for c in t.calls())

    def sets(f, c, same, depth=0):
        name = (c.get('f') or '').rsplit('::', 1)[-1]
        if name == 'imbue' and c.get('o') is not None and same(strip(c['o'])):
            return classic(f, c['a'][0])
        if c.get('k') == 'call':
            for t in [t for t in P.funcs.get(c.get('id')) or [] if t.d.get('body') is not None][:1]:
                for i, a in enumerate(c.get('a', [])):
                    r = strip(a)
                    if r is not None and r.get('k') == 'un' and r.get('op') == '&':
                        r = strip(r['e'])
                    if r is not None and same(r) and imbues(t, i, depth):
                        return True
        return False

    def diagnostic(f, d):
        """The text of the stream only goes to the trace or into an exception."""
        strs = [c for c in f.calls() if (c.get('f') or '').endswith('::str') and c.get('o') is not None and strip(c['o']).get('d') == d]
        good = set()
        for n in walk(f.d['body']):
            k = n.get('k')
            fn = '%s %s' % (n.get('f'), n.get('c')) if k in ('call', 'ctor') else ''
            if k == 'throw' or k in ('call', 'ctor') and re.search(r'trace|[Ee]xception|exceptions::', fn.replace('vmime::exceptions', 'exceptions')):
                good |= {id(x) for x in walk(n)}
        return bool(strs) and all(id(c) in good for c in strs)

    def before(f, node_ok, at):
        """Every path to the expression goes through a node for which node_ok holds."""
        C = cfg_of(f)
        tgt = [n.i for n in C.nodes if n.e is at or n.e is not None and n.e.get('i') is not None and n.e.get('i') == at.get('i') and n.e.get('l') == at.get('l')]
        if not tgt:
            return True
        seen, work = {C.entry.i}, [C.entry.i]
        while work:
            n = C.nodes[work.pop()]
            if n.i in tgt:
                return False
            if n.kind in ('call', 'ctor') and n.e is not None and node_ok(n.e):
                continue
            for _l, t in n.succ:
                if t not in seen:
                    seen.add(t)
                    work.append(t)
        return True

    done = {}

    def stream(f, r, at, depth=0):
        """None when the stream has the classic locale at this point, else (function, line) where it does not."""
        if r is None or depth > 6:
            return None
        if r.get('k') == 'ref' and r.get('dk') == 'local':
            if not STREAM.match(r.get('t') or ''):
                return None
            d = r['d']
            if diagnostic(f, d):
                return None
            ok = before(f, lambda e: sets(f, e, lambda x: x.get('k') == 'ref' and x.get('d') == d), at)
            return None if ok else (f, at.get('l'), r.get('n'))
        if r.get('k') == 'ref' and r.get('dk') == 'param':
            d = r['d']
            i = next((i for i, p in enumerate(f.d['p']) if p.get('d') == d), None)
            if i is None or '&' not in f.d['p'][i].get('t', '') and 'stream' not in f.d['p'][i].get('t', ''):
                return None
            if before(f, lambda e: sets(f, e, lambda x: x.get('k') == 'ref' and x.get('d') == d), at) and \
                    any(sets(f, c, lambda x: x.get('k') == 'ref' and x.get('d') == d) for c in f.calls()):
                return None
            key = (f.d['id'], i)
            if key in done:
                return done[key]
            done[key] = None
            ids = {f.d['id']} | set(f.d.get('ov') or [])
            for x in sorted(ids):
                for g, c in callers.get(x, []):
                    if i < len(c.get('a', [])):
                        w = stream(g, root(c['a'][i]), c, depth + 1)
                        if w is not None:
                            done[key] = w
                            return w
            return None
        if r.get('k') == 'mem' and strip(r['b']).get('k') == 'this' and f.cls:
            if not STREAM.match(r.get('t') or ''):
                return None
            same = lambda x: x.get('k') == 'mem' and x.get('n') == r['n'] and strip(x['b']).get('k') == 'this'      # noqa: E731
            if any(sets(f, c, same) for c in f.calls()):
                return None
            ctors = [g for g in fns if g.cls == f.cls and g.q.rsplit('::', 1)[-1] == f.cls.rsplit('::', 1)[-1]]
            for g in ctors:
                if not any(sets(g, c, same) for c in g.calls()) and not any(
                        t.cls == f.cls and any(sets(t, x, same) for x in t.calls()) for c in g.calls() for t in P.funcs.get(c.get('id')) or []):
                    return (g, g.line, r.get('n'))
            return None
        return None

    told = set()
    for f in fns:
        for r in f.nodes('ref'):
            # given to an algorithm: std::transform(..., ::tolower)
            if r.get('dk') == 'func' and (r.get('q') or r.get('n') or '').replace('std::', '') in CHARS:
                st['sites'] += 1
                base = (r.get('q') or r.get('n')).replace('std::', '')
                ctx.ob('characters use the classic locale', '%s:%s' % (f.file, r['l']), False)
                ctx.violation('char:%s:%s' % (f.q, base), '%s uses %s(), which depends on the locale of the program' % (f.q, base),
                              f.file, r['l'], None, f.q)
        for c in f.calls():
            name = c.get('f') or ''
            if INS.match(name) and c.get('a') and NUMBER.match(c['a'][-1].get('t') or ''):
                a = strip(c['a'][-1])
                if (a.get('t') or '').replace('const ', '') in ('unsigned char', 'byte_t', 'char', 'vmime::byte_t'):
                    continue        # at most three digits
                st['numbers'] += 1
                w = stream(f, root(c.get('o') if c.get('o') is not None else c['a'][0]), c)
                ctx.ob('numbers use the classic locale', '%s:%s' % (f.file, c['l']), w is None)
                if w is not None and (w[0].q, w[2], f.q) not in told:
                    told.add((w[0].q, w[2], f.q))
                    ctx.violation('number:%s:%s:%s' % (f.q, w[0].q, w[2]), '%s: a number is converted with the locale of the program: %s does not '
                                  'have the classic locale in %s' % (f.q, w[2], w[0].q), f.file if w[0] is not f else w[0].file, c['l'], None, f.q)
            base = name.rsplit('::', 1)[-1]
            if base in CHARS and name in (base, 'std::' + base):
                st['sites'] += 1
                # with a locale: std::tolower(c, loc)
                ok = any(classic(f, a) for a in c.get('a', [])[1:])
                ctx.ob('characters use the classic locale', '%s:%s' % (f.file, c['l']), ok)
                if not ok:
                    ctx.violation('char:%s:%s' % (f.q, base), '%s calls %s(), which depends on the locale of the program' % (f.q, base),
                                  f.file, c['l'], None, f.q)
            elif name == 'std::use_facet' or base == 'use_facet':
                st['sites'] += 1
                ok = classic(f, c['a'][0])
                ctx.ob('characters use the classic locale', '%s:%s' % (f.file, c['l']), ok)
                if not ok:
                    ctx.violation('facet:' + f.q, '%s uses a facet of another locale than the classic one' % f.q, f.file, c['l'], None, f.q)
            elif base == 'imbue' and c.get('o') is not None:
                st['streams'] += 1
                ok = classic(f, c['a'][0]) or diagnostic(f, strip(c['o']).get('d'))
                ctx.ob('streams are given the classic locale', '%s:%s' % (f.file, c['l']), ok)
                if not ok:
                    ctx.violation('imbue:' + f.q, '%s gives a stream another locale than the classic one' % f.q, f.file, c['l'], None, f.q)
    for k, n in st.items():
        ctx.count(k, n)
    ctx.need('numbers converted', st['numbers'], 25)
    ctx.need('streams given the classic locale', st['streams'], 30)
