"""Shared machinery of the checks: builds harnesses from /repo's working tree, runs TLC (exhaustive design
checks, history generation and trace validation), drives the real code, and writes evidence.

The verdict on an observed execution is always TLC's: a recorded trace is accepted exactly when every line of it
is a step of the TLA+ specification.  Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import concurrent.futures, hashlib, json, os, random, re, resource, subprocess, sys, time, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BOMBA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPLAY = os.path.join(VERIF, 'replay')
EVID = os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 8


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def repo_digest(extra=()):
    h = hashlib.sha256()
    files = []
    for root in (REPO, os.path.join(REPO, 'tls')):
        for f in sorted(os.listdir(root)):
            if f.endswith('.hpp'):
                files.append(os.path.join(root, f))
    for f in files + list(extra):
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


BASE_FLAGS = ['--std=c++20', '-g', '-pthread', '-include', 'cstdint', '-include', 'algorithm', '-w', '-I' + REPO,
              '-I' + HARNESS]


def build(name, sanitize='address', opt='-O1', defines=(), libs=(), flags=()):
    """Compile harness/<name>.cpp against the current /repo; the result is cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HARNESS, name + '.cpp')
    hdrs = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS)) if f.endswith('.hpp')]
    args = [opt] + BASE_FLAGS + list(flags) + ['-D' + d for d in defines]
    if sanitize:
        args += ['-fsanitize=' + sanitize, '-fno-omit-frame-pointer']
    key = hashlib.sha256((repo_digest([src] + hdrs) + repr(args) + repr(libs)).encode()).hexdigest()[:12]
    out = os.path.join(BUILD, '%s-%s' % (name, key))
    if os.path.exists(out):
        return out
    for old in os.listdir(BUILD):   # forget the binaries of earlier trees
        if re.fullmatch(re.escape(name) + '-[0-9a-f]{12}', old):
            try:
                if time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 600:
                    os.unlink(os.path.join(BUILD, old))
            except OSError:
                pass
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + args + [src, '-o', tmp] + list(libs), capture_output=True, text=True)
    if r.returncode:
        raise CheckError('harness %s does not compile:\n%s' % (name, (r.stderr or '')[-6000:]))
    os.rename(tmp, out)
    return out


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, workers=1, env=None, args=(), timeout=800, heap='3g', keep=None):
    """Run TLC; returns (exit status, output)."""
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix='tlc', dir=BUILD)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:CICompilerCount=2', '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
           '-config', cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as t:
        raise CheckError('TLC timed out on %s %s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier, level='model_checking'):
        self.pid, self.tier = pid, tier
        self.quick = tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%s' % (pid, self.seed))
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.assumptions, self.extra = [], [], [], {}
        self.violations = []
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.futures = []
        self.known = self.load_known()
        self.known_hit = {}

    # -- known findings: lines "KNOWN-FINDING property=<id> key=<key> <text>" in known_findings.txt
    def load_known(self):
        res = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    # -- design checks
    def model(self, module, cfg, workers=2, timeout=800, heap='4g', args=(), min_distinct=2):
        """Queue an exhaustive TLC run of the specification itself (no implementation involved)."""
        def go():
            t = time.time()
            rc, out = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
            gen, dist = stats(out)
            if rc != 0 or 'No error has been found' not in out or dist < min_distinct:
                raise CheckError('model %s/%s failed (rc %d):\n%s' % (module, cfg, rc, out[-4000:]))
            return module, cfg, gen, dist, time.time() - t
        self.futures.append(self.pool.submit(go))

    def model_must_fail(self, module, cfg, workers=1, timeout=300):
        """Queue a TLC run of a deliberately broken design; TLC must find the error (non-vacuity)."""
        def go():
            t = time.time()
            rc, out = tlc(module, cfg, workers=workers, timeout=timeout)
            if rc not in (10, 11, 12, 13) or 'Error:' not in out:
                raise CheckError('broken model %s/%s was not refuted (rc %d):\n%s' % (module, cfg, rc, out[-3000:]))
            gen, dist = stats(out)
            return module, cfg + ' (refuted as intended)', gen, dist, time.time() - t
        self.futures.append(self.pool.submit(go))

    # -- behaviours enumerated from a specification
    def generate(self, module, cfg, simulate=None, depth=40, timeout=300, heap='4g', env=None):
        """Run a generator spec; it prints every terminal history with PrintT(<<"H", ToJson(...)>>)."""
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed)]
        rc, out = tlc(module, cfg, workers=1, args=args, timeout=timeout, heap=heap, env=env)
        if rc != 0:
            raise CheckError('generator %s/%s failed (rc %d):\n%s' % (module, cfg, rc, out[-3000:]))
        res, seen = [], set()
        for line in out.splitlines():
            if line.startswith('<<"H", "'):
                body = line[len('<<"H", '):-2]
                s = json.loads(body)
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        gen, dist = stats(out)
        self.models.append({'module': module, 'cfg': cfg, 'generated': gen, 'distinct': dist, 'histories': len(res)})
        self.states += dist
        self.transitions += gen
        return res

    # -- driving the real code
    def drive(self, binary, cases, timeout=None, jobs=JOBS, env=None, args=(), case_timeout=20):
        """cases: list of (id, [lines]).  Returns {id: [event, ...]}."""
        timeout = timeout or 700
        shards = [[] for _ in range(max(1, min(jobs, len(cases))))]
        for i, c in enumerate(cases):
            shards[i % len(shards)].append(c)
        work = tempfile.mkdtemp(prefix='drive', dir=BUILD)

        def go(n):
            text = ''.join('case %s\n%s\nend\n' % (cid, '\n'.join(lines)) for cid, lines in shards[n])
            inp = os.path.join(work, 'in%d' % n)
            outp = os.path.join(work, 'out%d' % n)
            with open(inp, 'w') as f:
                f.write(text)
            e = dict(os.environ)
            e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:max_allocation_size_mb=1500:hard_rss_limit_mb=6000:allocator_may_return_null=0'
            e['VH_CASE_TIMEOUT'] = str(case_timeout)
            e.update(env or {})
            with open(inp) as fi, open(outp, 'w') as fo, open(os.path.join(work, 'err%d' % n), 'w') as fe:
                try:
                    r = subprocess.run([binary] + list(args), stdin=fi, stdout=fo, stderr=fe, env=e, timeout=timeout)
                except subprocess.TimeoutExpired:
                    raise CheckError('driver %s did not finish within %d s' % (binary, timeout))
            if r.returncode:
                raise CheckError('driver %s exited with %d: %s' % (binary, r.returncode,
                                 open(os.path.join(work, 'err%d' % n)).read()[-3000:]))
            res = {}
            cur = None
            with open(outp, errors='replace') as f:
                for line in f:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        raise CheckError('driver wrote a malformed line: %r' % line[:300])
                    if ev.get('e') == 'begin':
                        cur = res.setdefault(ev['c'], [])
                    if cur is None:
                        raise CheckError('driver wrote an event outside a case: %r' % line[:300])
                    cur.append(ev)
            with open(os.path.join(work, 'err%d' % n), errors='replace') as f:
                err = f.read()
            return res, err
        try:
            traces, errs = {}, ''
            for res, err in self.pool.map(go, range(len(shards))):
                traces.update(res)
                errs += err
            self.last_stderr = errs
            missing = [c for c, _ in cases if c not in traces]
            if missing:
                raise CheckError('driver produced nothing for cases %s' % missing[:5])
            return traces
        finally:
            shutil.rmtree(work, ignore_errors=True)

    # -- trace validation
    def validate_file(self, module, cfg, events, env=None, timeout=800):
        """True if TLC accepts the sequence of events; otherwise the index of the first rejected event."""
        fd, path = tempfile.mkstemp(prefix='trace', suffix='.ndjson', dir=BUILD)
        with os.fdopen(fd, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev, separators=(',', ':')) + '\n')
        try:
            e = {'TRACE': path}
            e.update(env or {})
            rc, out = tlc(module, cfg, workers=1, env=e, timeout=timeout)
            m = re.findall(r'<<"DIAM", (\d+), (\d+)>>', out)
            stuck = re.search(r'The depth of the complete state graph search is (\d+)', out)
            if not m and rc == 75 and stuck and ('error occurred when TLC was evaluating' in out or 'TLC was unable to fingerprint' in out):
                # an event on which the specification is not even defined is not one of its steps
                self.extra['undefined_steps'] = self.extra.get('undefined_steps', 0) + 1
                self.last_tlc_error = out[-3000:]
                return min(int(stuck.group(1)) - 1, len(events) - 1)
            if not m or rc != 0 or int(m[-1][1]) != len(events):
                raise CheckError('trace validation %s failed to run (rc %d), trace of %d events:\n%s' % (module, rc, len(events), '\n'.join(l for l in out.split('\n') if 'rror' in l or 'xception' in l)[:1500] + out[-2500:]))
            gen, dist = stats(out)
            self.states += dist
            self.transitions += gen
            consumed = int(m[-1][0]) - 1
            return True if consumed == len(events) else consumed
        finally:
            os.unlink(path)

    def validate(self, module, cfg, traces, env=None, max_reject=3, shards=JOBS):
        """Validate many cases; returns [(case id, index of the rejected event within the case)]."""
        ids = list(traces)
        n = max(1, min(shards, len(ids)))
        parts = [[] for _ in range(n)]
        # balance by number of bytes
        weight = [0] * n
        for cid in sorted(ids, key=lambda c: -sum(len(json.dumps(e)) for e in traces[c])):
            k = weight.index(min(weight))
            parts[k].append(cid)
            weight[k] += sum(len(json.dumps(e)) + 40 for e in traces[cid])

        def go(part):
            part = list(part)
            rejected = []
            while part and len(rejected) < max_reject:
                events, owner = [], []
                for cid in part:
                    for k, ev in enumerate(traces[cid]):
                        events.append(ev)
                        owner.append((cid, k))
                r = self.validate_file(module, cfg, events, env=env)
                if r is True:
                    self.traces += len(part)
                    self.events += len(events)
                    break
                cid, k = owner[r]
                rejected.append((cid, k))
                done = part.index(cid)
                self.traces += done
                part = part[done + 1:]
            return rejected
        res = []
        for rej in self.pool.map(go, parts):
            res += rej
        return res

    def self_test(self, module, cfg, corrupted, env=None):
        """Each corrupted trace must be rejected by TLC, otherwise the binding is vacuous."""
        if not corrupted:
            raise CheckError('%s: nothing to corrupt for the binding self-test' % self.pid)
        accepted = [c for c, r in zip(corrupted, self.pool.map(
            lambda ev: self.validate_file(module, cfg, ev, env=env), [c[1] for c in corrupted])) if r is True]
        # a random corruption may happen to be another behaviour the specification allows; most must not be
        self.extra.setdefault('corrupted_traces_accepted', 0)
        self.extra['corrupted_traces_accepted'] += len(accepted)
        if len(accepted) * 5 > len(corrupted):
            raise CheckError('%s: the trace specification accepts a corrupted trace (%s): %s' % (
                self.pid, accepted[0][0], json.dumps(accepted[0][1])[:1500]))
        self.extra.setdefault('corrupted_traces_rejected', 0)
        self.extra['corrupted_traces_rejected'] += len(corrupted) - len(accepted)

    def conform(self, binary, module, cfg, cases, env=None, reruns=3, args=(), case_timeout=20, key=None, min_cases=1,
                driver_env=None, jobs=JOBS, corrupt=None, corrupt_n=6, again_skipped=0):
        """Drive the cases through the real code and have TLC judge the recorded traces."""
        if self.violations:     # What else there may be is of no interest before it's repaired
            return {}
        if len(cases) < min_cases:
            raise CheckError('only %d cases were generated for %s' % (len(cases), module))
        cases = [(str(c), l) for c, l in cases]
        bycase = dict(cases)
        if len(bycase) != len(cases):
            raise CheckError('duplicate case ids')
        traces = self.drive(binary, cases, args=args, case_timeout=case_timeout, env=driver_env, jobs=jobs)
        # after a few hangs the driver gives the rest up
        skipped = [c for c in cases if any(e['e'] == 'skipped' for e in traces[c[0]])]
        for c in skipped:
            del traces[c[0]]
        rejected = self.validate(module, cfg, traces, env=env)
        confirmed = []
        for cid, idx in rejected:
            again = None
            for _ in range(reruns):
                t2 = self.drive(binary, [(cid, bycase[cid])], args=args, case_timeout=case_timeout, env=driver_env)
                r2 = self.validate_file(module, cfg, t2[cid], env=env)
                if r2 is not True:
                    again = (t2[cid], r2)
                    break
            if again is None:
                self.extra.setdefault('unconfirmed_rejections', []).append({'case': bycase[cid], 'event': traces[cid][idx]})
                continue
            k = key(cid, bycase[cid], again[0], again[1]) if key else None
            if k is not None and k in self.known:
                self.known_hit[k] = self.known_hit.get(k, 0) + 1
                continue
            confirmed.append(cid)
            self.violation(cid, bycase[cid], again[0], again[1], module)
            if len(confirmed) >= 3:
                break
        if skipped and not self.violations:
            if again_skipped >= 3:
                raise CheckError('%d cases were not reached because of hangs that did not repeat' % len(skipped))
            traces.update(self.conform(binary, module, cfg, skipped, env, reruns, args, case_timeout, key, 1, driver_env, jobs, None, 0, again_skipped + 1))
        if traces and len(self.samples) < 3:
            cid = list(traces)[min(len(traces) - 1, 3)]
            self.samples.append({'case': bycase[cid][:12], 'trace': [clip(e) for e in traces[cid][:6]]})
        if corrupt and not rejected:
            made = []
            ids = list(traces)
            self.rng.shuffle(ids)
            for cid in ids:
                c = corrupt(json.loads(json.dumps(traces[cid])), self.rng)
                if c:
                    made.append((c[0], c[1]))
                if len(made) >= corrupt_n:
                    break
            self.self_test(module, cfg, made, env=env)
        return traces

    def violation(self, cid, lines, events, idx, module):
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, '%s-%s.json' % (self.pid, re.sub(r'\W', '_', str(cid))))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'case': str(cid), 'input': lines, 'specification': module,
                       'rejected_event_index': idx, 'rejected_event': events[idx] if idx < len(events) else None,
                       'trace': events, 'stderr': getattr(self, 'last_stderr', '')[-6000:]}, f, indent=1)
        log('property %s: case %s rejected at event %d: %s' % (self.pid, cid, idx, json.dumps(clip(events[idx]))[:900]))
        for l in lines[:20]:
            log('   | ' + l[:300])
        self.violations.append(path)

    def finish(self):
        for f in self.futures:
            module, cfg, gen, dist, secs = f.result()
            self.models.append({'module': module, 'cfg': cfg, 'generated': gen, 'distinct': dist, 'seconds': round(secs, 1)})
            self.states += dist
            self.transitions += gen
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'trace_events': self.events,
               'models': self.models, 'samples': self.samples or ['none']}
        cov.update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
                       'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
                       'violations': len(self.violations)}, f, indent=1)
        for k, text in self.known.items():
            if self.known_hit.get(k):
                log('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        for v in self.violations:
            log('VIOLATION property=%s replay=%s' % (self.pid, v))
        if not self.violations:
            log('%s held: %d model/trace states, %d traces of the real code accepted, %.1f s' % (
                self.pid, self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def clip(ev, n=200):
    out = {}
    for k, v in ev.items():
        s = json.dumps(v)
        out[k] = v if len(s) <= n else s[:n] + '...'
    return out


def hexs(b):
    if isinstance(b, str):
        b = b.encode()
    return bytes(b).hex() or '-'
