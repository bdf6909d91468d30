"""Copies are complete, independent of the original, and of the same class."""
from ..copying import Copying, root_of
from ..program import walk

# Members that are deliberately not part of the value, with the reason.
SKIP = {
    'vmime::component::m_parsedOffset': 'position in the buffer the original was parsed from',
    'vmime::component::m_parsedLength': 'position in the buffer the original was parsed from',
    'vmime::body::m_part': 'back reference to the owner',
    'vmime::bodyPart::m_parent': 'back reference to the owner',
    'vmime::body::m_boundary': 'two bodies of one message must not share a boundary',
    'vmime::net::imap::IMAPTag::m_tag': 'text form, recomputed from the number',
}
# copyFrom()/operator= only: the identity of the target stays
SKIP_ASSIGN = {'vmime::headerField::m_name': 'a field keeps its own name when it is assigned another field\'s content'}
# Never copied: created by a factory or a connection and handed out through shared pointers only.
NOT_VALUES = ('vmime::charsetConverter', 'vmime::utility::stream', 'vmime::utility::outputStream', 'vmime::utility::inputStream',
              'vmime::net::imap::IMAPParser', 'vmime::net::tls::TLSSession', 'vmime::utility::childProcess',
              'vmime::security::cert::certificate', 'vmime::net::socket')
# The factory maps the name of a field to its class.
FACTORY = {'vmime::headerField'}


def check(P, ctx):
    ctx.rule('For each public copy constructor, assignment operator, copyFrom() and clone(), a must-analysis of the '
             'structured body (constructor initialisers, assignments, container loops, delegated copies, setters resolved '
             'through the call graph) computes which members of the source have reached the same member of the '
             'destination on every normal return; every data member of the class and its bases has to be among them. '
             'Members that own message components must be copied deeply, containers must be emptied before they are '
             'refilled, and clone() must create an object of the very class it is called on.')
    for t in (SKIP, SKIP_ASSIGN):
        ctx.assumptions += ['%s is not copied: %s' % (k, v) for k, v in sorted(t.items())]
    C = Copying(P, ctx.fx)
    n = {'copy constructor': 0, 'assignment': 0, 'copyFrom': 0, 'clone': 0}

    def judge(what, f, owner, copied, bad, skip):
        want = {q: x for q, x in C.fields(owner).items() if q not in skip and not q.startswith('std::')}
        n[what] += 1
        ok = True
        for q in sorted(want):
            if q not in copied:
                ok = False
                ctx.violation('%s:%s:%s' % (what.replace(' ', '-'), owner, q),
                              '%s of %s can return without having copied member %s' % (what, owner, q),
                              f.file, f.line, None, f.q)
        for q, line, why in bad:
            ok = False
            ctx.violation('%s:%s:%s:%s' % (what.replace(' ', '-'), f.q, q, why.split()[0]),
                          '%s of %s: member %s is %s' % (what, owner, q, why), f.file, line, None, f.q)
        ctx.funcs.add(f.sig())
        ctx.ob('%s of %s copies its %d member(s)' % (what, owner, len(want)), ctx.at(f), ok)

    def nearest(cls, name):
        for c in [cls] + P.bases(cls):
            for f in P.byq.get(c + '::' + name, []):
                if f.d.get('body') is not None:
                    return f
        return None

    for f in P.fn:
        if not f.file.startswith('vmime/') or f.d.get('implicit') or f.d.get('defaulted') or f.d.get('body') is None \
                or f.cls is None or f.d.get('acc') != 'public' or len(f.params) != 1:
            continue
        pt = P.norm(f.params[0]['t'])
        if not f.params[0]['t'].rstrip().endswith('&'):
            continue
        if f.kind == 'ctor' and f.d.get('cp') == 'copy':
            c, b = C.assign(f, f.cls)
            judge('copy constructor', f, f.cls, c, b, SKIP)
        elif f.name == 'operator=' and (pt == f.cls or pt == 'vmime::component'):
            c, b = C.assign(f, f.cls)
            judge('assignment', f, f.cls, c, b, set(SKIP) | set(SKIP_ASSIGN))
        elif f.name == 'copyFrom' and f.cls in P.records and not P.derives(f.cls, 'vmime::component'):
            c, b = C.assign(f, f.cls)
            judge('copyFrom', f, f.cls, c, b, SKIP)
    concrete = [c for c in sorted(P.subclasses('vmime::component')) if not P.rec(c).get('abstract')]
    for cls in concrete:
        f = nearest(cls, 'copyFrom')
        if f is None:
            continue
        c, b = C.assign(f, cls)
        judge('copyFrom', f, cls, c, b, set(SKIP) | set(SKIP_ASSIGN))
    # clone ------------------------------------------------------------------
    bases = {c for f in P.fn if f.name == 'clone' and f.cls for c in [f.cls] + P.bases(f.cls)}
    for i, m in P.decl.items():
        if m['q'].endswith('::clone') and m.get('cls'):
            bases.add(m['cls'])
    for cls in sorted(P.records):
        if not any(P.derives(cls, b) for b in bases) or P.rec(cls).get('abstract') or not cls.startswith('vmime::'):
            continue
        f = nearest(cls, 'clone')
        if f is None or f.params or not f.d.get('virt'):
            continue
        if f.cls in FACTORY:
            created, c, b = C.clone(f, f.cls)
            if cls == f.cls:
                named = any(x.get('k') == 'mem' and x['q'] in SKIP_ASSIGN for y in f.calls()
                            if y.get('f', '').rsplit('::', 1)[-1] == 'create' for x in walk(y['a']))
                judge('clone', f, cls, c | (set(SKIP_ASSIGN) if named else set()), b, SKIP)
            continue
        created, c, b = C.clone(f, cls)
        if created is not None and created != cls:
            n['clone'] += 1
            ctx.ob('clone of %s has its class' % cls, ctx.at(f), False)
            ctx.violation('clone-class:%s' % cls, 'clone() of a %s yields a %s' % (cls, created), f.file, f.line, None, f.q)
            continue
        judge('clone', f, cls, c, b, SKIP)
    # classes that own raw memory
    own = 0
    for f in P.fn:
        if f.kind != 'dtor' or not f.file.startswith('vmime/') or f.cls not in P.records:
            continue
        dels = {root_of(d['e'], {})[1] for d in f.nodes('delete') if root_of(d['e'], {})[0] == 'this'} - {None}
        if not dels or any(P.derives(f.cls, b) for b in NOT_VALUES):
            continue
        ms = P.rec(f.cls)['methods']
        hasc = any(m.get('cp') == 'copy' for m in ms)
        hasa = any(m['q'].endswith('::operator=') and len(m['p']) == 1 and P.norm(m['p'][0]['t']) == f.cls for m in ms)
        own += 1
        ctx.ob('%s, which deletes %s, defines how it is copied' % (f.cls, ', '.join(sorted(dels))), ctx.at(f), hasc and hasa)
        for have, what in ((hasc, 'copy constructor'), (hasa, 'assignment operator')):
            if not have:
                ctx.violation('owner:%s:%s' % (f.cls, what.split()[0]),
                              '%s deletes %s in its destructor but has only the implicit %s: copies share and free the same memory'
                              % (f.cls, ', '.join(sorted(dels)), what), f.file, f.line, None, f.q)
    ctx.need('value classes owning raw memory', own, 2)
    for k, v in n.items():
        ctx.count(k + 's checked', v)
    ctx.need('copy constructors', n['copy constructor'], 15)
    ctx.need('assignments', n['assignment'], 15)
    ctx.need('copyFrom functions', n['copyFrom'], 15)
    ctx.need('clone functions', n['clone'], 40)
