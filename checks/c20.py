"""C20: connections of a TCP server."""
from vlib import build

SIZES = [0, 0, 1, 5, 100, 500, 2000, 2048, 3000, 5000]


def case(r, i, big=True):
    step = r.random() < .4
    lines = ['server ' + ('step' if step else 'thread')]
    live, total, deaf, starved = [], 0, {}, False
    if r.random() < .1:
        lines.append('stats')

    def ask(c, kind='ok', size=None):
        if size is None:
            size = r.choice([0, 1, 10, 100, 1000, 5000] + ([100000, 700000] if not step and r.random() < .2 else []))
        lines.append('ask %d %s %d %d %d' % (c, kind, size, r.choice([1, 1, 2, 3, 7]), r.choice(SIZES)))
    for _ in range(r.choice([6, 15, 30, 60])):
        x = r.random()
        if not live or (x < .15 and total < 12):
            total += 1
            lines.append('%s %d' % ('starve' if r.random() < .08 else 'join', total))
            live.append(total)
            continue
        c = r.choice(live)
        if x < .45:
            for _ in range(r.choice([1, 1, 2, 4])):
                ask(c)
        elif x < .58:
            lines.append('push %d %d' % (c, r.choice([1, 3, 10, 24, 100, 1000, 2048, 100000])))
        elif x < .62:
            lines.append('step')
        elif x < .67:
            lines.append('read %d' % c)
        elif x < .8:
            lines.append('await %d' % c)
        elif x < .84:
            lines.append('shut %d' % c)
            live.remove(c)
        elif x < .88:
            ask(c, r.choice(['bad', 'bad', 'fail']))
            if r.random() < .5:
                lines.append('await %d' % c)
            elif r.random() < .5:
                lines.append('push %d %d' % (c, r.choice([10, 100, 100000])))
            live.remove(c)    # No more requests
        else:
            # It disconnects, possibly while it's being replied to
            if r.random() < .7:
                for _ in range(r.choice([1, 2, 3, 8])):
                    ask(c, size=r.choice([10, 3000] if step else [10, 3000, 3000, 400000] + [4000000, 9000000] * big))
                lines.append('send %d %d' % (c, r.choice([10, 1000, 100000])))
                if r.random() < .5:
                    lines.append('step')
            lines.append('leave %d %s %d' % (c, r.choice(['close', 'reset']), r.choice([0, 0, 100, 3000])))
            live.remove(c)
    if r.random() < .3:
        lines.append('stats')
    return 'n%d' % i, lines


def corrupt(events, rng):
    k = rng.choice(['lost', 'order', 'size', 'mixed', 'content', 'early', 'rest'])
    replies = [i for i, e in enumerate(events) if e['e'] == 'reply']
    if k == 'rest':
        ends = [e for e in events if e['e'] == 'end']
        if not ends:
            return None
        rng.choice(ends)['rest'] = 3
        return k, events
    if not replies:
        return None
    i = rng.choice(replies)
    e = events[i]
    if k == 'lost':
        if not any(x['e'] in ('end', 'awaited') and x.get('c') == e['c'] for x in events[i:]):
            return None
        del events[i]
    elif k == 'order':
        e['q'] += 1
    elif k == 'size':
        e['n'] += 1
    elif k == 'mixed':
        e['owner'] = e['c'] + 1
    elif k == 'content':
        e['ok'] = False
    else:
        events.insert(i, {'e': 'end', 'c': e['c'], 'rest': 0})
    return k, events


def run(chk):
    chk.model('MC_TcpServer', 'MC_TcpServer.cfg' if chk.quick else 'MC_TcpServer_deep.cfg')
    for bug in ('index', 'escape', 'cut', 'deaf'):
        chk.model_must_fail('MC_TcpServer', 'MC_TcpServer_%s.cfg' % bug)
    cases = [case(chk.rng, i) for i in range(400 if chk.quick else 4000)]
    # very many connections, many requests of one
    for i in range(8 if chk.quick else 60):
        r = chk.rng
        n = r.choice([25, 40, 70])
        lines = ['server thread'] + ['join %d' % c for c in range(1, n + 1)]
        if r.random() < .5:
            for c in r.sample(range(1, n + 1), n):
                lines += ['ask %d ok %d 1 %d' % (c, r.choice([0, 10, 3000]), r.choice(SIZES))] * r.choice([1, 1, 2]) + ['push %d 100000' % c]
                if r.random() < .3:
                    lines.append('leave %d %s 0' % (c, r.choice(['close', 'reset'])))
                elif r.random() < .5:
                    lines.append('await %d' % c)
        else:
            for _ in range(300):
                lines.append('ask %d ok %d 1 %d' % (r.choice([1, 1, 2]), r.choice([0, 1, 10]), r.choice([0, 1, 5])))
            lines += ['await 1', 'await 2']
        cases.append(('l%d' % i, lines))
    chk.conform(build('tcp'), 'T_Connections', 'T_Connections.cfg', cases, corrupt=corrupt, corrupt_n=30, case_timeout=60)
