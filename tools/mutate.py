#!/usr/bin/env python3
"""mutate.py <file> <how many> <seed> <check>... : small changes of a header of Bomba that keep the stable tests passing;
are they noticed by the conformance parts of the checks?  Works on copies under /tmp.  Survivors have to be looked at: many change no behaviour."""
import os, random, re, subprocess, sys, json, shutil, concurrent.futures, threading
FILE, COUNT, SEED, CHECKS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
PAR = int(os.environ.get('MUT_PAR', '2'))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
source = open('/repo/' + FILE).read().split('\n')
js = FILE.endswith('.js')

def mutants():
    res = []
    for n, line in enumerate(source):
        code = line.split('//')[0] if '://' not in line else line
        if not code.strip() or code.strip().startswith(('#', '*', '/*', 'template', 'using', 'static_assert', 'class', 'struct', 'requires', 'concept')):
            continue
        def put(a, b, text):
            new = code[:a] + text + code[b:]
            if new != code: res.append((n, new))
        for m in re.finditer(r'(?<![<>=!\-+&|*/])(<=|>=|==|!=)(?!=)', code):
            put(m.start(), m.end(), {'<=': '<', '>=': '>', '==': '!=', '!=': '=='}[m.group()])
        for m in re.finditer(r' (<|>) ', code):
            put(m.start(), m.end(), {' < ': ' <= ', ' > ': ' >= '}[m.group()])
        for m in re.finditer(r'&&|\|\|', code):
            if re.search(r'&&\s*\w+[,)]', code) and '(' in code and 'if' not in code and 'return' not in code: continue
            put(m.start(), m.end(), '||' if m.group() == '&&' else '&&')
        for m in re.finditer(r' ([+-]) ', code):
            put(m.start(), m.end(), ' - ' if m.group() == ' + ' else ' + ')
        for m in re.finditer(r'(\+=|-=)', code):
            put(m.start(), m.end(), '-=' if m.group() == '+=' else '+=')
        for m in re.finditer(r' [+-] 1\b', code):
            put(m.start(), m.end(), '')
        for m in re.finditer(r'\b(true|false)\b', code):
            put(m.start(), m.end(), 'false' if m.group() == 'true' else 'true')
        for m in re.finditer(r'(?<![\w.\'"])\d+(?![\w.\'"])', code):
            put(m.start(), m.end(), str(int(m.group()) + 1))
        m = re.match(r'^(\s*)((?:[\w.\->\[\]*:]+)\s*(?:=|\+=|-=)\s*[^=].*;|[\w.\->:]+(?:<[^<>]*>)?\(.*\);|\+\+\w+;|\w+(?:\+\+|--);|break;|continue;)\s*$', code)
        if m and not re.match(r'\s*(auto|int|bool|const|std::\S+|return|char|size_t|let|double|int64_t)\s+\w', code):
            put(len(m.group(1)), len(code), ';')
        m = re.search(r'\bif (?:constexpr)?\s*\((.*)\)(?: \[\[\w+\]\])?( \{|$)', code)
        if m and 'constexpr' not in code:
            put(m.start(1), m.end(1), '!(' + m.group(1) + ')')
            put(m.start(1), m.end(1), 'false && (' + m.group(1) + ')')
        if 'if constexpr' in code and re.search(r'if constexpr\s*\(', code): pass
    return res

all_ = mutants()
random.Random(SEED).shuffle(all_)
lock = threading.Lock()
counts = {'broken': 0, 'tests': 0, 'caught': 0, 'alive': 0}
runner = '''
import sys; sys.path.insert(0, '/verif')
import vlib
vlib.Check.model = lambda *a, **k: None
vlib.Check.model_must_fail = lambda *a, **k: None
sys.argv = ['run_check.py', sys.argv[1], 'quick']
exec(compile(open('/verif/run_check.py').read(), '/verif/run_check.py', 'exec'))
'''
open('/tmp/mut/runner.py', 'w').write(runner)

def attempt(k, n, new):
    W = '/tmp/mut/%s.%d.%d' % (FILE.replace('/', '_'), SEED, k)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(['cp', '-a', '/repo', W + '/repo'])
    lines = list(source); lines[n] = new
    open(W + '/repo/' + FILE, 'w').write('\n'.join(lines))
    try:
        if js:
            if subprocess.run('node --check --input-type=module - < %s/repo/%s' % (W, FILE), shell=True, capture_output=True).returncode: return 'broken', ''
        else:
            ps = [subprocess.Popen(['g++', '--std=c++20', '-w', '-g0', '-pthread', '-include', 'cstdint', '-include', 'algorithm', t + '.cpp', '-o', W + '/' + t], cwd=W + '/repo', stderr=subprocess.DEVNULL)
                  for t in ['bomba_test'] + (['bomba_sync_client_test', 'bomba_tcp_server_test'] if 'tcp' in FILE or 'sync' in FILE or 'http' in FILE else [])]
            if any([p.wait() for p in ps]): return 'broken', ''
            r = subprocess.run('flock /tmp/seedtest.lock timeout 60 %s/bomba_test > %s/out 2>&1; python3 /opt/vp/sections.py %s/out $?' % (W, W, W), shell=True, cwd=W + '/repo', capture_output=True, text=True)
            passed = {l[5:].strip() for l in r.stdout.split('\n') if l.startswith('PASS ')}
            if STABLE - passed: return 'tests', ''
        log = ''
        for c in CHECKS:
            env = dict(os.environ, BOMBA_REPO=W + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
            try:
                r = subprocess.run(['nice', 'python3', '/tmp/mut/runner.py', c], cwd='/verif', env=env, capture_output=True, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                log += c + ' TIMEOUT; '; continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout: return 'caught', log + c
            if r.returncode != 0: log += '%s rc %d %s; ' % (c, r.returncode, (r.stdout + r.stderr).replace('\n', ' ')[:160])
        return 'alive', log
    finally:
        shutil.rmtree(W, ignore_errors=True)

def go(item):
    k, (n, new) = item
    with lock:
        if counts['caught'] + counts['alive'] >= COUNT: return
    res, log = attempt(k, n, new)
    with lock:
        counts[res] += 1
        if res in ('alive', 'caught'):
            print('%s %s:%d\n  - %s\n  + %s   %s' % (res.upper(), FILE, n + 1, source[n].strip(), new.strip(), log), flush=True)
with concurrent.futures.ThreadPoolExecutor(PAR) as ex:
    list(ex.map(go, enumerate(all_)))
print(FILE, len(all_), 'mutants;', counts, flush=True)
