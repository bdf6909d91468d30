#!/usr/bin/env python3
"""Runs checks against many mutations, in parallel copies of /repo (/tmp/pm/N).

usage: pmut.py CHECK[,CHECK...] MUTATIONS.json      list of [file, old, new] (first occurrence) or [file, line, old, new]
       pmut.py CHECK[,...] --del REGEX [FILE-REGEX]   removes, one at a time, every statement that matches
A mutation that does not parse is reported as RC2."""
import json, os, queue, re, subprocess, sys, threading, glob
SRC = os.environ.get('PM_SRC', '/repo')
N = int(os.environ.get('PM_N', '6'))
checks = sys.argv[1].split(',')
muts = []
if sys.argv[2] == '--del':
    rx = re.compile(sys.argv[3]); fx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
    for f in sorted(glob.glob('/repo/src/vmime/**/*.[ch]pp', recursive=True)):
        r = f[6:]
        if 'windows' in r or not fx.search(r): continue
        for i, l in enumerate(open(f, errors='replace').read().split('\n')):
            if rx.search(l) and ';' in l:
                muts.append([r, i + 1, re.search(r'\S.*;', l).group(0), '(void) 0;'])
else:
    muts = json.load(open(sys.argv[2]))
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
# a copy of the checks, so that they can be edited meanwhile
SNAP = '/tmp/pm/verif'
os.makedirs(SNAP, exist_ok=True)
subprocess.run('tar c --exclude=.git --exclude=seeded --exclude=evidence . | tar x -C ' + SNAP, shell=True, check=True, cwd='/verif')

def work(n):
    base = '/tmp/pm/%d' % n
    repo = base + '/repo'
    os.makedirs(base, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', '--exclude', '.git', SRC + '/', repo + '/'], check=True) \
        if shutil_which('rsync') else subprocess.run('mkdir -p %s && find %s -mindepth 1 -delete; cd %s && tar c --exclude=_build --exclude=.git . | tar x -C %s' % (repo, repo, SRC, repo), shell=True, check=True)
    env = dict(os.environ, VERIF_TIER='quick', VMSA_REPO=repo, VMSA_BUILD=base + '/build', VMSA_EVIDENCE=base + '/evidence')
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = os.path.join(repo, m[0])
        s0 = open(f).read()
        if len(m) == 4:
            L = s0.split('\n'); L[m[1] - 1] = L[m[1] - 1].replace(m[2], m[3], 1); s = '\n'.join(L)
        elif m[1] == '@@multi':     # [file, '@@multi', [[old, new], ...]]
            s = s0
            for a, b in m[2]:
                s = s.replace(a, b, 1) if a in s else s0
        else:
            s = s0.replace(m[1], m[2], 1)
        if s == s0:
            with lock: print('NOTFOUND', m[0], repr(m[1])[:80], flush=True)
            continue
        open(f, 'w').write(s)
        out = []
        for c in checks:
            r = subprocess.run(['python3', '-m', 'vmsa.run', c], cwd=SNAP, env=env, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if re.match(r'(src/)?vmime/|src/', x)]
            out.append((c, r.returncode, v, r.stdout + r.stderr))
        with lock:
            hit = [o for o in out if o[1] == 1]
            bad = [o for o in out if o[1] not in (0, 1)]
            print('CAUGHT' if hit else 'BROKEN' if bad else 'MISSED', m[0], m[1:] if len(m) == 4 else repr(m[2])[:100], flush=True)
            for o in hit[:1]: print('    ', (o[2] or ['?'])[0][:230], flush=True)
            for o in bad[:1]: print('    ', o[3][-300:].replace('\n', ' | '), flush=True)
        open(f, 'w').write(s0)

def shutil_which(x):
    import shutil
    return shutil.which(x)
ts = [threading.Thread(target=work, args=(i,)) for i in range(min(N, len(muts)))]
[t.start() for t in ts]; [t.join() for t in ts]
