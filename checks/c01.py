"""C01: the receive buffer offers the handler exactly the unconsumed bytes, whatever the segmentation."""
import json


def corrupt(events, rng):
    offers = [e for e in events if e['e'] == 'offer' and e['runs']]
    if not offers:
        return None
    e = rng.choice(offers)
    kind = rng.choice(['pos', 'len', 'ret', 'parsed'])
    if kind == 'pos':
        e['runs'][0][0] += 1
    elif kind == 'len':
        e['runs'][0][1] -= 1
        e['len'] -= 1
    elif kind == 'ret':
        r = [x for x in events if x['e'] == 'ret'][-1]
        r['more'] = not r['more']
    else:
        p = [x for x in events if x['e'] == 'parsed']
        if not p:
            return None
        events.remove(p[0])
    return kind, events


def to_case(cid, hist, seed):
    lines = ['stream %d %d' % (seed, 60000)]
    for size, react in hist:
        for r in react.split(';'):
            lines.append('react ' + r)
        # reactions that were not asked for must not leak into the next read
        lines.append('recv ' + size)
    return cid, lines


def run(chk):
    from vlib import build
    chk.model('TcpBuffer', 'MC_TcpBuffer.cfg')
    chk.model('TcpBufferImpl', 'MC_TcpBufferImpl.cfg', workers=3)
    binary = build('tcp_buffer')
    cases = []
    for i, h in enumerate(chk.generate('G_TcpBuffer', 'G_TcpBuffer.cfg')):
        cases.append(to_case('e%d' % i, h, chk.seed))
    for i, h in enumerate(chk.generate('G_TcpBuffer', 'G_TcpBuffer_deep.cfg', simulate=25 if chk.quick else 600, depth=14)):
        cases.append(to_case('s%d' % i, h, chk.seed + i))
    rng = chk.rng
    for i in range(900 if chk.quick else 9000):   # long messages and arbitrary sizes
        lines = ['stream %d %d' % (i, 60000)]
        for _ in range(rng.randint(3, 30)):
            k = rng.random()
            n = rng.choice([1, 2, 100, 500, 1023, 1024, 1025, 2047, 2048, 3071, 3072, rng.randint(1, 3072)])
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
                lines.append('react ' + rng.choice(['on 77', 'on', 'okall', 'okbut %d' % n, 'ok %d' % n, 'okpart %d' % rng.randint(1, 99), 'wrong']))
            lines.append('react ' + rng.choice(['on', 'on', 'okbut 1', 'okall', 'okpart 50']))
            if k < 0.03:
                lines[-1] = 'react stop'
            lines.append('recv ' + ('full' if rng.random() < .5 else str(n)))
        if rng.random() < .2:
            lines.append('recv ' + rng.choice(['eof', 'err']))
        cases.append(('r%d' % i, lines))
    chk.conform(binary, 'T_TcpBuffer', 'T_TcpBuffer.cfg', cases, corrupt=corrupt)
