#!/usr/bin/env python3
"""Mutants of koute/speedy that still pass its tests: mutate.py OUT_DIR WORKERS [FILE-REGEX]. Writes OUT_DIR/<n>.diff for each survivor.
Works on copies of /repo under /tmp."""
import os, re, sys, subprocess, shutil, random, json, concurrent.futures, threading, difflib
out, workers = sys.argv[1], int(sys.argv[2])
want = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
FILES = ['src/' + f for f in sorted(os.listdir('/repo/src')) if f.endswith('.rs')] + ['speedy-derive/src/lib.rs']
def muts(l):
    s = l.split('//')[0]
    if not s.strip() or s.strip().startswith(('#', 'use ', 'pub use', 'extern', 'mod ', 'fn ', 'pub fn', 'impl', 'where', 'unsafe impl', 'pub trait', 'trait', 'struct', 'pub struct')): return
    for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' += ', ' -= '), (' * ', ' + '), ('true', 'false'), ('false', 'true'), ('min(', 'max('), ('max(', 'min('), ('is_eof()', 'is_eof() == false'), (' << ', ' >> '), (' >> ', ' << '), (' | ', ' ^ '), (' & ', ' | '), ('LittleEndian', 'BigEndian'), ('BigEndian', 'LittleEndian'), ('is_none()', 'is_some()'), ('is_some()', 'is_none()'), ('checked_add', 'wrapping_add_'), (' as u16', ' as u8 as u16'), (' as u32', ' as u16 as u32'), (' as u64', ' as u32 as u64'), (' as usize', ' as u8 as usize'), ('saturating', 'wrapping'), ('if !', 'if '), ('if ', 'if true || '), ('if ', 'if false && '), ('Some( ', 'None.or( '), ('length', 'length / 2'), ('size_of', 'align_of')):
        i = -1
        while True:
            i = s.find(a, i + 1)
            if i < 0: break
            if a in ('if ', 'if !') and ('if let' in s or not re.match(r'\s*(\} else )?if ', s) ): continue
            yield l[:i] + b + l[i + len(a):]
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d+)(?![\w.])', s):
        try: v = int(m.group(1).replace('_', ''), 0)
        except ValueError: continue
        for n in {v + 1, v - 1 if v else 1}:
            if n >= 0: yield l[:m.start()] + str(n) + l[m.end():]
    t = s.strip()
    if t.endswith(';') and not t.startswith(('let ', 'return', 'type ', 'const ', 'static ', 'use ', 'break', 'continue', '}')) and t.count('(') == t.count(')') and t.count('{') == t.count('}'):
        yield l[:len(l) - len(l.lstrip())] + '{}'
jobs = []
for f in FILES:
    if not want.search(f): continue
    ls = open('/repo/' + f).read().split('\n')
    test = False
    for i, l in enumerate(ls):
        if '#[test]' in l or 'macro_rules! test' in l: test = True
        elif test and l == '}': test = False
        if test: continue
        for m in dict.fromkeys(muts(l)): jobs.append((f, i, m))
random.Random(1).shuffle(jobs)
LIM = int(os.environ.get('LIMIT', '100000'))
jobs = jobs[:LIM]
if os.environ.get("COUNT"): print(len(jobs)); sys.exit()
print(len(jobs), 'mutants', flush=True)
os.makedirs(out, exist_ok=True)
B = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
free, lock, n = [], threading.Lock(), [0, 0]
for w in range(workers):
    d = '/tmp/mut/w%d' % w
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/opt/vp', d + '/vp'], check=True)
    free.append(d)
def one(job):
    f, i, m = job
    with lock: d = free.pop()
    try:
        p = d + '/repo/' + f
        src = open('/repo/' + f).read()
        ls = src.split('\n')
        ls[i] = m
        open(p, 'w').write('\n'.join(ls))
        # the workers see their copy as /repo
        sc = 'mount --bind %s/repo /repo && mount --bind %s/vp /opt/vp && cd /repo && timeout 200 bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 60 bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1' % (d, d, d)
        try: os.unlink(d + '/t.json')
        except OSError: pass
        subprocess.run(['unshare', '-Urm', 'bash', '-c', sc], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = False
        try: ok = B <= set(json.load(open(d + '/t.json'))['passed'])
        except Exception: pass
        open(p, 'w').write(src)
        with lock:
            n[0] += 1
            if ok:
                n[1] += 1
                k = '%s-%d-%d' % (os.path.basename(f)[:-3] if 'derive' not in f else 'derive', i + 1, n[1])
                new = '\n'.join(ls)
                open('%s/%s.diff' % (out, k), 'w').write(''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f)))
                print(k, repr(src.split('\n')[i].strip()), '->', repr(m.strip()), flush=True)
            if n[0] % 50 == 0: print('...', n, flush=True)
    finally:
        with lock: free.append(d)
with concurrent.futures.ThreadPoolExecutor(workers) as ex: list(ex.map(one, jobs))
print('done', n)
shutil.rmtree('/tmp/mut', ignore_errors=True)
