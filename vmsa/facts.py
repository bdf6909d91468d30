"""Builds the fact base for /repo's current working tree.

  * configures the two build configurations the project's own build covers
    (GnuTLS + ICU, OpenSSL + iconv) in a private directory, to get the
    generated config header and the compile commands,
  * runs the extractor on every translation unit of both configurations,
  * merges the results into one Program.

Everything is cached under /verif/build, keyed by the *content* of every file
that went into a result, so an edit anywhere in /repo/src re-extracts exactly
the units that see it.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import pickle
import re
import shlex
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMSA_REPO', '/repo')
BUILD = os.environ.get('VMSA_BUILD', os.path.join(VERIF, 'build'))
EXTRACTOR = os.path.join(VERIF, 'build', 'vmsa_extract')
TEMPLATES = os.path.join(VERIF, "extract", "templates.cpp")
RESOURCE_DIR = '/usr/lib/llvm-18/lib/clang/18'

CONFIGS = {
    'gnutls': ['-DVMIME_TLS_SUPPORT_LIB=gnutls', '-DVMIME_CHARSETCONV_LIB=icu'],
    'openssl': ['-DVMIME_TLS_SUPPORT_LIB=openssl', '-DVMIME_CHARSETCONV_LIB=iconv'],
}


class BrokenAnalysis(Exception):
    """The analysis could not be carried out (not a verdict)."""


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}


def file_sha(p):
    try:
        with open(p, 'rb') as f:
            return sha(f.read())
    except OSError:
        return 'missing'


def cached_sha(p):
    if p not in _fh:
        _fh[p] = file_sha(p)
    return _fh[p]


def ensure_extractor():
    src = os.path.join(VERIF, 'extract', 'vmsa_extract.cpp')
    bsh = os.path.join(VERIF, 'extract', 'build.sh')
    key = sha((file_sha(src) + file_sha(bsh)).encode())
    stamp = EXTRACTOR + '.key'
    try:
        if open(stamp).read() == key and os.path.exists(EXTRACTOR):
            return key
    except OSError:
        pass
    os.makedirs(os.path.dirname(EXTRACTOR), exist_ok=True)
    r = subprocess.run(['bash', bsh, EXTRACTOR], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BrokenAnalysis('cannot build the extractor:\n' + r.stdout.decode(errors='replace')[-4000:])
    with open(stamp, 'w') as f:
        f.write(key)
    return key


def source_listing():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.relpath(os.path.join(base, f), REPO))
    return out


def configure():
    """Returns {config: [(source, args)]}; configures when needed."""
    inputs = [os.path.join(REPO, 'CMakeLists.txt')]
    for base, dirs, files in os.walk(os.path.join(REPO, 'cmake')):
        dirs.sort()
        inputs += [os.path.join(base, f) for f in sorted(files)]
    key = sha('\n'.join([REPO] + source_listing() + [p + ':' + file_sha(p) for p in inputs]).encode())
    res = {}
    for name, opts in CONFIGS.items():
        d = os.path.join(BUILD, 'cfg', name)
        stamp = os.path.join(d, '.vmsa-key')
        ok = False
        try:
            ok = open(stamp).read() == key
        except OSError:
            pass
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            env = dict(os.environ, CC='gcc', CXX='g++')
            cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-Wno-dev',
                   '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                   '-DVMIME_BUILD_STATIC_LIBRARY=OFF', '-DVMIME_BUILD_DOCUMENTATION=OFF',
                   '-DVMIME_BUILD_TESTS=OFF', '-DVMIME_BUILD_SAMPLES=OFF',
                   '-DVMIME_SENDMAIL_PATH=/usr/sbin/sendmail'] + opts
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            if r.returncode != 0:
                raise BrokenAnalysis('cmake failed (%s):\n%s' % (name, r.stdout.decode(errors='replace')[-3000:]))
            with open(stamp, 'w') as f:
                f.write(key)
        db = json.load(open(os.path.join(d, 'compile_commands.json')))
        units = []
        for e in db:
            src = e['file']
            if not src.endswith('.cpp') or not src.startswith(REPO + '/src/'):
                continue
            args = []
            toks = shlex.split(e['command'])[1:]
            i = 0
            while i < len(toks):
                t = toks[i]
                if t in ('-o', '-c'):
                    i += 2
                    continue
                if t.startswith(('-I', '-D', '-std=', '-isystem', '-f', '-U')):
                    args.append(t)
                    if t in ('-I', '-D', '-isystem', '-U'):
                        i += 1
                        args.append(toks[i])
                i += 1
            args += ['-w', '-resource-dir', RESOURCE_DIR]
            units.append((src, args))
        units.sort()
        res[name] = units
    return res


def _macros(path):
    m = {}
    for l in open(path, errors='replace'):
        g = re.match(r'\s*#\s*define\s+(\w+)(.*)', l)
        if g:
            m[g.group(1)] = g.group(2).strip()
    return m


def extract_one(job):
    src, args, root, out, key = job
    r = subprocess.run([EXTRACTOR, root, src, '--'] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0 or not r.stdout:
        return src, None, r.stderr.decode(errors='replace')[-2000:]
    d = json.loads(r.stdout)
    deps = {p: file_sha(p) for p in d['deps']}
    if src not in deps:
        deps[src] = file_sha(src)
    tmp = out + '.tmp%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump({'key': key, 'deps': deps, 'facts': d}, f, protocol=4)
    os.rename(tmp, out)
    return src, deps, None


def load_facts(verbose=False):
    """Returns (list of (config, unit-path, facts), digest)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ekey = ensure_extractor()
        cfgs = configure()
        fdir = os.path.join(BUILD, 'facts')
        os.makedirs(fdir, exist_ok=True)

        def hdr(name):
            return os.path.join(BUILD, 'cfg', name, 'src', 'vmime', 'config.hpp')
        base = 'gnutls'
        todo, have = [], []

        def plan(name, units):
            root = os.path.join(REPO, 'src') + ':' + os.path.join(BUILD, 'cfg', name, 'src')
            for src, args in units:
                rel = os.path.relpath(src, REPO)
                out = os.path.join(fdir, name + '__' + rel.replace('/', '_') + '.pkl')
                key = sha((ekey + root + '\0'.join(args)).encode())
                meta = out + '.deps'
                try:
                    m = json.load(open(meta))
                    if m['key'] == key and all(cached_sha(p) == h for p, h in m['deps'].items()) and os.path.exists(out):
                        have.append((name, src, out, m['deps']))
                        continue
                except (OSError, ValueError, KeyError):
                    pass
                todo.append((name, src, args, root, out, key))

        def run():
            nonlocal todo
            if not todo:
                return
            jobs = [(s, a, r, o, k) for (_n, s, a, r, o, k) in todo]
            names = {(o): n for (n, _s, _a, _r, o, _k) in todo}
            errs = []
            with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                for job, (src, deps, err) in zip(jobs, ex.map(_extract_sub, jobs)):
                    if err is not None:
                        # (the headers may have lost a template: the library's own units decide)
                        if src != TEMPLATES:
                            errs.append((src, err))
                        continue
                    with open(job[3] + '.deps', 'w') as f:
                        json.dump({'key': job[4], 'deps': deps}, f)
                    have.append((names[job[3]], src, job[3], deps))
            if errs:
                raise BrokenAnalysis('extraction failed for %d unit(s): %s\n%s' % (len(errs), errs[0][0], errs[0][1]))
            todo = []

        plan(base, cfgs[base] + [(TEMPLATES, cfgs[base][0][1])])
        run()
        bm = _macros(hdr(base))
        depsof = {s: d for (n, s, _o, d) in have}
        for name in cfgs:
            if name == base:
                continue
            om = _macros(hdr(name))
            diff = {k for k in set(bm) | set(om) if bm.get(k) != om.get(k)}
            rx = re.compile(r'\b(' + '|'.join(map(re.escape, sorted(diff))) + r')\b') if diff else None
            cache = {}

            def mentions(p):
                if os.path.basename(p) == 'config.hpp' and p.startswith(BUILD):
                    return False
                if p not in cache:
                    try:
                        cache[p] = bool(rx and rx.search(open(p, errors='replace').read()))
                    except OSError:
                        cache[p] = True
                return cache[p]
            units = [(s, a) for s, a in cfgs[name] if s not in depsof or any(mentions(p) for p in depsof[s])]
            plan(name, units)
            run()
        digest = sha(json.dumps(sorted((n, s, sorted(d.items())) for n, s, _o, d in have)).encode() + ekey.encode())
        return sorted((n, s, o) for n, s, o, _d in have), digest, {n: len(u) for n, u in cfgs.items()}


def _extract_sub(job):
    # json parsing and pickling in a child process: threads would serialise on it
    code = ('import sys,pickle;sys.path.insert(0,%r);from vmsa import facts;'
            'j=pickle.load(sys.stdin.buffer);sys.stdout.buffer.write(pickle.dumps(facts.extract_one(j)))' % VERIF)
    r = subprocess.run([sys.executable, '-c', code], input=pickle.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return job[0], None, r.stderr.decode(errors='replace')[-2000:]
    return pickle.loads(r.stdout)
