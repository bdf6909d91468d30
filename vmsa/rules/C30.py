"""Names that are not case-sensitive are compared without regard to case."""
import re
from ..program import walk

SU = 'vmime::utility::stringUtils::'
LOWER = {SU + 'toLower', 'vmime::parserHelpers::toLower'}
UPPER = {SU + 'toUpper'}
SAME = {SU + 'trim', SU + 'unquote', 'std::string::substr', 'std::string::c_str', 'std::string::data', 'std::move', 'std::forward'}
# what these return is a name whose case has no meaning
GETTERS = {'vmime::headerField::getName', 'vmime::parameter::getName', 'vmime::mediaType::getType', 'vmime::mediaType::getSubType',
           'vmime::encoding::getName', 'vmime::charset::getName', 'vmime::contentDisposition::getName',
           'vmime::contentTypeField::getReportType', 'vmime::utility::encoder::encoderFactory::registeredEncoder::getName',
           'vmime::propertySet::property::getName', 'vmime::net::serviceFactory::registeredService::getName'}
# every map of these classes has such names as its keys
TABLES = {'vmime::headerFieldFactory', 'vmime::security::digest::messageDigestFactory', 'vmime::security::sasl::SASLMechanismFactory',
          'vmime::net::smtp::SMTPConnection', 'vmime::parameterizedHeaderField', 'vmime::security::cert::monthMap'}
# every word that is compared with a literal here is a keyword of the protocol
KEYWORDS = re.compile(r'^vmime/(net/(imap/IMAPParser\.hpp|smtp/SMTP(Connection|Response)\.cpp|pop3/POP3(Connection|Capability\w*|Response)\.cpp)|'
                      r'propertySet\.[ch]pp|misc/importanceHelper\.cpp|utility/url\.cpp)$')
MAPKEY = {'find', 'count', 'operator[]', 'at', 'erase', 'lower_bound', 'insert', 'emplace'}


def strip(e):
    while e is not None:
        if e.get('k') == 'cast':
            e = e['e']
        elif e.get('k') == 'ctor' and len([a for a in e.get('a', []) if a.get('k') != 'defarg']) == 1 and \
                re.search(r'basic_string$|^std::string$', e.get('c') or ''):
            e = e['a'][0]
        else:
            break
    return e


def join(a, b):
    if a is None or a == 'N':
        return b if b is not None else a
    if b is None or b == 'N' or a == b:
        return a
    return 'A'


def letters(s):
    if s.lower() == s.upper():
        return 'N'
    return 'L' if s == s.lower() else 'U' if s == s.upper() else 'M'


def stringy(t):
    return bool(re.search(r'\bstring\b|basic_string|char \*|char\[', (t or '').replace('const ', ''))) and 'vector' not in (t or '') and 'map<' not in (t or '')


def show(e):
    e = strip(e)
    if e is None:
        return '?'
    k = e.get('k')
    if k == 'str':
        return '"%s"' % e.get('s')
    if k in ('ref', 'mem'):
        return e.get('n') or '?'
    if k == 'call':
        return (e.get('f') or '?').rsplit('::', 1)[-1] + '()'
    return k


def check(P, ctx):
    ctx.rule('For each comparison of two strings (==, !=, compare, std::find and keys of maps) the case of both sides is computed: '
             'lower or upper when every value that reaches it went through toLower() or toUpper() or is such a literal (through members '
             'to all their assignments, through parameters of internal functions to the callers, through accessors), else any. A name '
             'whose case has no meaning is compared with isStringEqualNoCase(), or both sides have the same case; a side of known case is '
             'never compared with one of another or of any case.')
    fns, seen = [], set()
    for f in sorted(P.fn, key=lambda f: f.sig()):
        if f.d.get('body') is not None and f.file.startswith('vmime/') and (f.d['id'], f.line) not in seen:
            seen.add((f.d['id'], f.line))
            fns.append(f)
    classes = {f.cls for f in fns if f.cls}
    literals = {k[0]: v['val'] for k, v in P.globals.items() if isinstance(v.get('val'), str) and 'char' in (v.get('t') or '')}
    for k, v in P.globals.items():
        i = strip(v.get('init'))
        if k[0] not in literals and i is not None and i.get('k') == 'str' and (v.get('t') or '').startswith('const '):
            literals[k[0]] = i.get('s') or ''
    callers, stores, overs, made, folds = {}, {}, {}, {}, {}

    def put(key, f, e):
        stores.setdefault(key, []).append((f, e))

    def place(f, e):
        e = strip(e)
        if e is None:
            return None
        if e.get('k') == 'mem' and e.get('q'):
            return e['q']
        if e.get('k') == 'ref' and e.get('d') is not None and e.get('dk') in ('local', 'slocal', 'param'):
            return (f.d['id'], f.line, e['d'])
        return None

    def container(f, e):
        """The place whose elements an iterator or element expression denotes."""
        e = strip(e)
        for _ in range(6):
            if e is None:
                return None
            if e.get('k') == 'ref' and 'iterator' in (e.get('t') or ''):
                st = [x for g, x in stores.get(place(f, e), []) if x is not None]
                e = strip(st[0]) if st else None
                continue
            if e.get('k') == 'ctor' and e.get('a'):
                e = strip(e['a'][0])
                continue
            if e.get('k') == 'call' and (e.get('f') or '').rsplit('::', 1)[-1] in ('begin', 'cbegin', 'operator*', 'operator[]', 'at', 'end', 'front', 'back'):
                e = strip(e.get('o') if e.get('o') is not None else (e.get('a') or [None])[0])
                continue
            return place(f, e)
        return None

    for g in fns:
        for x in g.d.get('ov') or []:
            overs.setdefault(x, []).append(g)
        for i in g.d.get('inits') or []:
            if i.get('m') and i.get('e') is not None:
                put(i['m'], g, i['e'])
        for n in walk(g.d['body']):
            if n.get('k') == 'decl':
                for v in n['v']:
                    if v.get('init') is not None:
                        put((g.d['id'], g.line, v.get('d')), g, v['init'])
            if n.get('k') == 'rfor' and n.get('var'):
                put((g.d['id'], g.line, n['var'].get('d')), g, n['r'])
            if n.get('k') not in ('call', 'ctor'):
                continue
            if n.get('f') == 'std::transform' and len(n.get('a', [])) == 4:
                how = {x.get('q') or x.get('n') or x.get('f') for x in walk(n['a'][3]) if isinstance(x, dict)}
                how = {str(x).rsplit('::', 1)[-1] for x in how}
                p = [x for x in (container(g, n['a'][i]) for i in (0, 2))]
                if p[0] is not None and p[1] is not None and how & {'toLower', 'tolower', 'toUpper', 'toupper'}:
                    folds.setdefault(p[1], set()).add('L' if how & {'toLower', 'tolower'} else 'U')
            if n.get('id'):
                callers.setdefault(n['id'], []).append((g, n))
            name = (n.get('f') or '').rsplit('::', 1)[-1]
            o = n.get('o')
            if name == 'make_shared':
                m = re.search(r'shared_ptr<(.*)>', n.get('t') or '')
                if m:
                    made.setdefault(m.group(1), []).append((g, n))
            if o is not None and name in ('operator=', 'operator+=', 'append', 'assign', 'push_back', 'emplace_back', 'insert') and n.get('a'):
                p = place(g, o)
                if p is not None and 'map<' not in (strip(o).get('t') or ''):
                    put(p, g, n['a'][-1] if name != 'insert' else n['a'][-1])
            elif o is not None and name == 'resize' and stringy((strip(o) or {}).get('t')):
                p = place(g, o)
                if p is not None:
                    put(p, g, None)
            elif n.get('op') == '>>' or name == 'getline':
                for a in n.get('a', []):
                    p = place(g, a)
                    if p is not None:
                        put(p, g, None)

    def internal(f):
        return f.d.get('acc') in ('private', 'protected') or f.d.get('local') or \
            bool(f.cls) and f.cls.rsplit('::', 1)[0] in classes

    memo = {}

    def of(key):
        """Case of everything that is stored in a member or local variable."""
        if key in memo:
            return memo[key]
        memo[key] = None
        r = None
        if len(folds.get(key, ())) == 1:
            memo[key] = next(iter(folds[key]))
            return memo[key]
        for f, e in stores.get(key, []):
            if e is not None and place(f, e) == key:
                continue
            r = join(r, 'A' if e is None else case(f, e))
        memo[key] = r
        return r

    def case(f, e, depth=0):
        e = strip(e)
        if e is None or depth > 8:
            return 'A'
        k = e.get('k')
        if k == 'str':
            return letters(e.get('s') or '')
        if k == 'defarg':
            return 'N'
        if k == 'ref' and e.get('q') in literals:
            return letters(literals[e['q']])
        if k in ('ref', 'mem'):
            p = place(f, e)
            if p is None:
                return 'A'
            if k == 'ref' and e.get('dk') == 'param':
                i = next((i for i, x in enumerate(f.d['p']) if x.get('d') == e['d']), None)
                r = of(p)
                if i is None or not internal(f):
                    return 'A'
                cs = callers.get(f.d['id'], [])
                if f.d.get('kind') == 'ctor' or f.cls and f.q.rsplit('::', 1)[-1] == f.cls.rsplit('::', 1)[-1].split('<')[0]:
                    cs = cs + [x for t, l in made.items() if re.sub(r'<.*', '', t) == re.sub(r'<.*', '', f.cls or '') for x in l]
                if not cs:
                    return 'A'
                key = ('param', f.d['id'], i)
                if key not in memo:
                    memo[key] = None
                    q = None
                    for g, c in cs:
                        q = join(q, case(g, c['a'][i], depth + 1) if i < len(c.get('a', [])) else 'A')
                    memo[key] = q
                return join(r, memo[key]) or 'N'
            if p not in stores:
                # never assigned: empty, unless it is filled elsewhere
                return 'A'
            return of(p) or 'N'
        if k == 'cond':
            return join(case(f, e.get('x') or e.get('a'), depth + 1), case(f, e.get('y') or e.get('b'), depth + 1))
        if k == 'ctor' and re.search(r'(vector|list|set|deque)$', e.get('c') or ''):
            a = [x for x in e.get('a', []) if x.get('k') != 'defarg']
            return 'N' if not a else case(f, a[0], depth + 1) if len(a) == 1 else 'A'
        if k == 'ctor' and 'string' in (e.get('c') or ''):
            a = [x for x in e.get('a', []) if x.get('k') != 'defarg']
            if not a:
                return 'N'
            src = strip(a[0])
            if src is not None and src.get('k') == 'call' and src.get('o') is not None and stringy(strip(src['o']).get('t')):
                return case(f, src['o'], depth + 1)
            return 'A'
        if k == 'call':
            n = e.get('f') or ''
            if n in LOWER:
                return 'L'
            if n in UPPER:
                return 'U'
            if n in SAME:
                return case(f, e['o'] if e.get('o') is not None else e['a'][0], depth + 1)
            if n == 'std::operator+':
                return join(case(f, e['a'][0], depth + 1), case(f, e['a'][1], depth + 1))
            if n.rsplit('::', 1)[-1] in ('operator*', 'operator[]', 'at', 'front', 'back'):
                p = container(f, e)
                return (of(p) or 'A') if p in stores else 'A'
            ts = [t for t in (P.funcs.get(e.get('id')) or [])[:1] if t.d.get('body') is not None] or overs.get(e.get('id')) or []
            r = None
            for t in ts:
                key = ('ret', t.d['id'], t.line)
                if key not in memo:
                    memo[key] = None
                    q = None
                    for x in t.nodes('ret'):
                        q = join(q, case(t, x.get('e'), depth + 1))
                    memo[key] = q or 'A'
                r = join(r, memo[key])
            return r or 'A'
        return 'A'

    members = set()
    for f in fns:
        ids = {f.q} | {g.q for x in f.d.get('ov') or [] for g in (P.funcs.get(x) or [])[:1]}
        if ids & GETTERS:
            for r in f.nodes('ret'):
                e = strip(r.get('e'))
                if e is not None and e.get('k') == 'mem' and e.get('q'):
                    members.add(e['q'])

    def folded(f, e, depth=0):
        """The value is a name whose case has no meaning."""
        e = strip(e)
        if e is None or depth > 5:
            return False
        if e.get('k') == 'mem' and (e.get('q') in members or e.get('n') == 'value' and any(
                x.get('k') == 'mem' and x.get('n') == 'string1' and 'param' in (x.get('q') or '') for x in walk(e))):
            return True
        if e.get('k') == 'call':
            n = e.get('f') or ''
            if n in GETTERS:
                return True
            if n in SAME:
                return folded(f, e['o'] if e.get('o') is not None else e['a'][0], depth + 1)
        if e.get('k') == 'ref' and e.get('dk') in ('local', 'slocal'):
            return any(x is not None and folded(g, x, depth + 1) for g, x in stores.get(place(f, e), []))
        return False

    st = {'comparisons': 0, 'names': 0, 'tables': 0, 'nocase': 0}
    told = set()

    def report(f, line, key, text):
        if (f.q, key) not in told:
            told.add((f.q, key))
            ctx.violation('case:%s:%s' % (f.q, key), '%s: %s' % (f.q, text), f.file, line, None, f.q)

    words = {'L': 'is in lower case', 'U': 'is in upper case', 'M': 'has both cases', 'A': 'can have any case', 'N': 'has no letters'}

    def compare(f, c, a, b):
        if not (stringy((strip(a) or {}).get('t')) or stringy((strip(b) or {}).get('t')) or (strip(a) or {}).get('k') == 'str'):
            return
        st['comparisons'] += 1
        lit = [strip(x).get('k') == 'str' or strip(x).get('q') in literals for x in (a, b)]
        if all(lit):
            return
        ca, cb = case(f, a), case(f, b)
        name = folded(f, a) or folded(f, b) or KEYWORDS.match(f.file) is not None and any(lit)
        fixed = [not l and s in 'LU' for l, s in zip(lit, (ca, cb))]
        if not name and not any(fixed):
            return
        st['names'] += 1
        ok = ca == cb != 'A' and ca != 'M' or ca == 'N' or cb == 'N'
        ctx.ob('comparisons of names', '%s:%s' % (f.file, c['l']), ok)
        if not ok:
            report(f, c['l'], '%s,%s' % (show(a), show(b)), 'a name whose case has no meaning is compared in a way that depends on it: %s %s and %s %s'
                   % (show(a), words[ca], show(b), words[cb]))

    for f in fns:
        if KEYWORDS.match(f.file):
            for b in f.nodes('bin'):
                if b.get('op') in ('==', '!='):
                    ss = [strip(b.get(x)) for x in 'ab' if x in b] or [strip(b.get(x)) for x in 'xy' if x in b]
                    if len(ss) == 2 and all(x is not None and x.get('k') == 'un' and x.get('op') == '*' and 'char' in (x.get('t') or '') for x in ss):
                        st['names'] += 1
                        ctx.ob('comparisons of names', '%s:%s' % (f.file, b['l']), False)
                        report(f, b['l'], 'char', 'a keyword is compared character by character in a way that depends on its case')

    tables = {}
    for f in fns:
        for c in f.calls():
            n = c.get('f') or ''
            base = n.rsplit('::', 1)[-1]
            args = c.get('a', [])
            if n in ('std::operator==', 'std::operator!=') and len(args) == 2:
                compare(f, c, args[0], args[1])
            elif n == 'std::string::compare' and args and c.get('o') is not None:
                compare(f, c, c['o'], args[-1] if args[-1].get('k') != 'defarg' else args[0])
            elif n == 'std::find' and len(args) == 3 and stringy((strip(args[2]) or {}).get('t')):
                p = container(f, args[0])
                if p in stores:
                    st['comparisons'] += 1
                    ca, cb = of(p) or 'N', case(f, args[2])
                    if 'L' in (ca, cb) or 'U' in (ca, cb):
                        st['names'] += 1
                        ok = ca == cb or ca == 'N' or cb == 'N'
                        ctx.ob('comparisons of names', '%s:%s' % (f.file, c['l']), ok)
                        if not ok:
                            report(f, c['l'], show(args[2]), 'a list of names is searched in a way that depends on their case: what is looked for '
                                   '%s, the elements: %s' % (words[cb], words[ca]))
            elif n == 'std::string::find' and args and c.get('o') is not None and folded(f, c['o']):
                st['comparisons'] += 1
                st['names'] += 1
                ok = case(f, c['o']) != 'A'
                ctx.ob('comparisons of names', '%s:%s' % (f.file, c['l']), ok)
                if not ok:
                    report(f, c['l'], 'find:' + show(c['o']), 'a name whose case has no meaning is searched in a way that depends on it: %s %s'
                           % (show(c['o']), words['A']))
            elif n == SU + 'isStringEqualNoCase':
                st['nocase'] += 1
                li = [x for x in args if strip(x) is not None and strip(x).get('k') == 'str']
                if len(args) == 3 and li:
                    s = strip(li[0]).get('s') or ''
                    num = strip(args[2])
                    v = num.get('v', num.get('cv')) if num is not None else None
                    ok = letters(s) in 'LN' and (not isinstance(v, int) or v == len(s))
                    ctx.ob('words for comparison', '%s:%s' % (f.file, c['l']), ok)
                    if not ok:
                        report(f, c['l'], s, 'isStringEqualNoCase() is given "%s", which has to be in lower case and compared over its whole length' % s)
            elif c.get('o') is not None and base in MAPKEY and args:
                o = strip(c['o'])
                t = (o or {}).get('t') or ''
                m = re.match(r'^(const )?std::map<std::string, (.*)>( &| \*)?$', t)
                p = place(f, o)
                if not m or p is None or re.search(r', (?!std::less<)[\w:]*(less|comp|cmp|nocase)\w*(<[^<>]*>)?$', m.group(2), re.I):
                    continue
                key = args[0]
                if base in ('insert', 'emplace'):
                    key = strip(key)
                    for _ in range(4):
                        if key is not None and key.get('k') == 'ctor' and key.get('a') and 'pair' in (key.get('c') or ''):
                            key = strip(key['a'][0])
                        elif key is not None and key.get('k') == 'call' and (key.get('f') or '').endswith('make_pair'):
                            key = strip(key['a'][0])
                if key is None or 'iterator' in (key.get('t') or '') or not stringy(key.get('t')) and strip(key).get('k') != 'str':
                    continue
                tables.setdefault(p, []).append((f, c, key))
    for p, uses in sorted(tables.items(), key=lambda x: str(x[0])):
        cls = p.rsplit('::', 1)[0] if isinstance(p, str) else uses[0][0].cls
        cases = [(f, c, key, case(f, key)) for f, c, key in uses]
        known = [s for f, c, key, s in cases if s in 'LU' and strip(key).get('k') == 'call']
        if cls not in TABLES and not known:
            continue
        st['tables'] += 1
        known = known or [s for _f, _c, _k, s in cases if s in 'LU']
        want = max(sorted(set(known)), key=known.count) if known else 'L'
        for f, c, key, s in cases:
            ok = s == want or s == 'N'
            ctx.ob('keys of tables of names', '%s:%s' % (f.file, c['l']), ok)
            if not ok:
                report(f, c['l'], '%s:%s' % (p.rsplit('::', 1)[-1] if isinstance(p, str) else 'table', (c.get('f') or '').rsplit('::', 1)[-1]),
                       'a table of names whose case has no meaning is accessed with a key that %s; its other keys are in %s case'
                       % (words[s], 'lower' if want == 'L' else 'upper'))
    for k, n in st.items():
        ctx.count(k, n)
    ctx.need('comparisons of names', st['names'], 35)
    ctx.need('tables of names', st['tables'], 4)
