"""C07: futures."""
from vlib import build

TYPES = ['int', 'string', 'bool', 'list', 'object', 'double', 'void']


def how(rng, kind):
    return rng.choice(['ok', 'ok', 'ok', 'error', 'missing'] + (['wrong'] if kind != 'void' else []))


def case(rng, i):
    kind = rng.choice(TYPES)
    lines = ['type ' + kind]
    calls = 0
    for _ in range(rng.choice([4, 10, 25, 60])):
        s, o = rng.randrange(5), rng.randrange(5)
        r = rng.random()
        if r < .25:
            lines.append('call %d %s %d' % (s, how(rng, kind), rng.randrange(200)))
            calls += 1
        elif r < .3:
            lines.append('local %d %d' % (s, rng.randrange(200)))
        elif r < .34:
            lines.append('now %s %d' % (how(rng, kind), rng.randrange(200)))
            calls += 1
        elif r < .45 and calls:
            lines.append('answer %d' % rng.randint(1, calls))
        elif r < .6:
            lines.append('get %d' % s)
            if rng.random() < .3:
                lines.append(lines[-1])
        elif r < .72:
            lines.append('ready %d' % s)
        elif r < .8:
            lines.append(rng.choice(['drop', 'give']) + ' %d' % s)
        elif r < .95:
            lines.append('move %d %d' % (s, o))
        else:
            lines.append('build %d %d' % (s, o))
    return 'r%d' % i, lines


def corrupt(events, rng):
    i = rng.choice([i for i, e in enumerate(events) if e['e'] in ('got', 'ready', 'fetched', 'result', 'waited')] or [-1])
    if i < 0:
        return None
    e = events[i]
    if e['e'] == 'ready':
        e['yes'] = not e['yes']
    elif e['e'] in ('got', 'result'):
        if rng.random() < .5:
            e['ok'] = not e['ok']
        else:
            e['ok'], e['b'] = True, e['b'] + [49]
    elif e['e'] == 'waited':
        e['t'] += 1
    else:
        events.insert(i, dict(e))
    return e['e'] + ' changed', events


def run(chk):
    chk.model('MC_Futures', 'MC_Futures.cfg' if chk.quick else 'MC_Futures_deep.cfg')
    for bug in ('ghost', 'again', 'ready', 'stays'):
        chk.model_must_fail('MC_Futures', 'MC_Futures_%s.cfg' % bug)
    binary = build('futures')
    rng = chk.rng
    cases = []
    # every sequence of a few operations, on each type in turn
    histories = chk.generate('G_Futures', 'G_Futures.cfg' if chk.quick else 'G_Futures_deep.cfg')
    each = 60
    for k, i in enumerate(range(0, len(histories), each)):
        lines = ['type ' + TYPES[k % len(TYPES)]]
        for h in histories[i:i + each]:
            lines.append('new')
            for op in h:
                lines.append(' '.join(str(x) for x in op) + (' %d' % rng.randrange(200) if op[0] == 'call' else ''))
        cases.append(('m%d' % k, lines))
    for i in range(2500 if chk.quick else 30000):
        cases.append(case(rng, i))
    chk.conform(binary, 'T_Futures', 'T_Futures.cfg', cases, corrupt=corrupt, corrupt_n=24)
