"""C10: the binary layout."""
from checks.codecgen import *
from vlib import build


def corrupt(events, rng):
    idx = [i for i, e in enumerate(events) if e['e'] in ('text', 'int', 'str', 'real', 'bool', 'next', 'member', 'opt', 'end', 'oend')]
    if not idx or not any(x['e'] == 'done' for x in events):
        return None
    i = rng.choice(idx)
    e = events[i]
    if e['e'] == 'text':
        if not e['b']:
            return None
        e['b'][rng.randrange(len(e['b']))] ^= 1
        return 'a wrong byte in the message', events
    if e['e'] == 'int':
        e['le'][0] ^= 1
        return 'wrong integer', events
    if e['e'] in ('str', 'member'):
        e['v'] = e['v'] + [65]
        return 'wrong text', events
    if e['e'] in ('bool', 'next', 'opt'):
        e['v'] = not e['v']
        return 'wrong ' + e['e'], events
    if e['e'] == 'real':
        e['neg'] = not e['neg']
        e['le'][7] ^= 128
        return 'wrong real number', events
    del events[i]
    return e['e'] + ' missing', events


def run(chk):
    chk.model('MC_Binary', 'MC_Binary.cfg')
    chk.model_must_fail('MC_Binary', 'MC_Binary_unsized.cfg')
    binary = build('struct_io')
    rng = chk.rng
    cases = []
    for i in range(3000 if chk.quick else 30000):
        s = rng.choice([1, 2, 2, 2, 4, 8])
        k = rng.random()
        lines = ['fmt bin %d' % s, 'tree']
        if k < .5:
            t = btree(rng, rng.choice([0, 1, 2, 3, 4]))
            lines += t + [rng.choice(['write', 'write', 'fill']), 'read 0', 'read %d' % rng.randint(1, 10**6)]
        elif k < .75:      # every truncation of a message
            t = btree(rng, rng.choice([0, 1, 2, 3]))
            n = len(bencode(t, s)[0])
            cuts = list(range(n - 1, -1, -1))
            if len(cuts) > 25:
                cuts = sorted(rng.sample(cuts, 25), reverse=True)
            lines += t + ['write', 'read 0']
            for c in cuts:
                lines += ['cut %d' % c, 'read 0']
        else:              # messages with wrong sizes
            t = btree(rng, rng.choice([1, 2, 3]), exact=False)
            data = bytearray(bencode(t, s)[0])
            lines += t
            for _ in range(4):
                d = bytearray(data)
                for _ in range(rng.choice([1, 1, 2])):
                    if d:
                        d[rng.randrange(len(d))] = rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)])
                lines += ['text ' + hexs(d), 'read 0']
        cases.append(('r%d' % i, lines))
    # sizes at the limit of their type
    for s, n in [(1, 255), (1, 256), (1, 257)] + ([(2, 65535), (2, 65536), (4, 65536)]):
        for what in ('str', 'arr', 'obj', 'member'):
            if n > 1000 and what in ('obj', 'member') and chk.quick:
                continue
            if what == 'str':
                t = ['str ' + 'ab' * n]
            elif what == 'member':
                t = ['obj 1', 'name ' + '61' * n, 'bool 1']
            elif what == 'arr':
                t = ['arr %d' % n] + ['bool 1'] * n
            else:
                t = ['obj %d' % n] + ['name 61', 'bool 1'] * n
            if n > 1000 and what != 'str':
                continue
            cases.append(('l%d%d%s' % (s, n, what), ['fmt bin %d' % s, 'tree'] + t + ['write', 'read 0']))
    for depth in (3, 4):    # nested arrays up to the maximum
        t = ['arr 1'] * depth + ['int 5 i16']
        cases.append(('d%d' % depth, ['fmt bin 2', 'tree'] + t + ['write', 'read 0']))
    chk.conform(binary, 'T_Binary', 'T_Binary.cfg', cases, corrupt=corrupt, corrupt_n=20)
