"""C06: calls through clients and servers."""
import hashlib
import os
import random
from vlib import BUILD, build
from checks.callgen import Service

PROTOS = ['json', 'json', 'form', 'bin8', 'bin16', 'bin32', 'be16']


def case(r, methods, name):
    proto = r.choice(PROTOS)
    usable = [i for i, (formable, _) in enumerate(methods) if formable or proto != 'form']
    if not usable:
        proto, usable = r.choice(['json', 'bin16']), list(range(len(methods)))
    lines, asked, connections = ['proto ' + proto], [], 0
    sizes = [1, 3, 10, 30, 100, 1000, 100000]
    throws = r.choice([0, 0, .1, .3])
    for _ in range(r.choice([4, 10, 25, 50])):
        x = r.random()
        if not connections or (x < .05 and connections < 4):
            lines.append('connect %d' % r.choice([0, 2, 20, 200, 5000]))
            connections += 1
        elif x < .5:
            c, m = r.randint(1, connections), r.choice(usable)
            lines.append('ask %d %d %d %s %s' % (c, m, r.randrange(1 << 30), 'async' if r.random() < .75 else 'sync', 'throw' if r.random() < throws else 'ok'))
            asked.append(len(asked) + 1)
        elif x < .75:
            lines.append('move %d %s %d' % (r.randint(1, connections), r.choice(['server', 'client']), r.choice(sizes)))
        elif asked:
            lines.append('%s %d' % (r.choice(['fetch', 'poll']), r.choice(asked)))
    return name, lines


def corrupt(events, rng):
    calls = [e for e in events if e['e'] == 'call']
    answers = [e for e in events if e['e'] == 'answer']
    k = rng.choice(['twice', 'never', 'argument', 'result', 'other', 'error', 'method'])
    if k in ('twice', 'never', 'argument', 'method') and calls:
        e = rng.choice(calls)
        if k == 'twice':
            events.insert(events.index(e), dict(e))
        elif k == 'never':
            events.remove(e)
        elif k == 'method':
            e['m'] += 'x'
        elif e['a']['v']:
            e['a']['v'][0][1] = {'t': 'other'}
        else:
            return None
        return k, events
    good = [e for e in answers if e['ok']]
    if k == 'result' and good:
        rng.choice(good)['r'] = {'t': 'other'}
        return k, events
    if k == 'error' and good:
        rng.choice(good)['ok'] = False
        return k, events
    return None


def run(chk):
    for cfg in ('MC_Calls.cfg',) if chk.quick else ('MC_Calls.cfg', 'MC_Calls_deep.cfg'):
        chk.model('MC_Calls', cfg)
    for bug in ('counts', 'reorder', 'shared', 'late'):
        chk.model_must_fail('MC_Calls', 'MC_Calls_%s.cfg' % bug)
    programs = []
    for _ in range(8 if chk.quick else 48):
        s = Service(random.Random(chk.rng.randrange(1 << 40)))
        code = s.program()
        path = os.path.join(BUILD, 'calls-%s-%d.inc' % (hashlib.sha256(code.encode()).hexdigest()[:16], os.getpid()))
        os.makedirs(BUILD, exist_ok=True)
        with open(path, 'w') as f:
            f.write(code)
        programs.append((s, path))
    for (s, path), binary in zip(programs, chk.pool.map(lambda p: build('calls', opt='-O0', defines=['PROGRAM="%s"' % p[1]]), programs)):
        os.unlink(path)
        tag = os.path.basename(path)[6:14]
        cases = [case(chk.rng, s.methods, '%s.%d' % (tag, i)) for i in range(60 if chk.quick else 300)]
        chk.conform(binary, 'T_Calls', 'T_Calls.cfg', cases, corrupt=corrupt, corrupt_n=6)
        os.unlink(binary)
