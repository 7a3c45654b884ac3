"""C19: framing of binary RPC requests."""
from checks.binarygen import *
from vlib import build, hexs


def corrupt(events, rng):
    idx = [i for i, e in enumerate(events) if e['e'] in ('ran', 'send', 'ret', 'failed')]
    if not any(e['e'] == 'ran' for e in events):
        return None
    i = rng.choice(idx)
    e = events[i]
    if e['e'] == 'ret':
        e['more'] = not e['more']
        return 'wrong reaction', events
    if e['e'] == 'send':
        if rng.random() < .5:
            e['b'][rng.randrange(len(e['b']))] ^= 1
            return 'wrong byte sent', events
        del events[i]
        return 'response missing', events
    k = rng.random()
    if k < .4:
        del events[i]
        return 'method not run', events
    if k < .8:
        events.insert(i, dict(e))
        return 'method run twice', events
    e['path'] = e['path'] + [0]
    return 'another method run', events


def sequence(rng, clean):
    api = rng.choice(['dynamic', 'dynamic', 'object', 'one', 'wide'])
    s = rng.choice([1, 2, 2, 2, 4, 8])
    big = s != 8 and rng.random() < .25
    data = b''
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        ident, body = request(rng, api, s, big)
        if len(body) + 4 + s >= 256 ** s:
            continue
        m = frame(ident, body, s, big)
        k = rng.random()
        if not clean and k < .3:
            if k < .06:
                m = frame(ident, body + bytes(rng.randrange(256) for _ in range(rng.randint(1, 8))), s, big)   # more than the arguments
            elif k < .12 and body:
                m = frame(ident, body[:rng.randrange(len(body))], s, big)     # less than the arguments
            elif k < .18:
                m = frame(ident, body, s, big, rng.choice([-1, -2, -3, 1, 2, -len(body), -len(body) - 1, -len(body) - s]) if s > 1 or len(body) > 20 else 1)
            elif k < .24 and body:
                b = bytearray(body)
                b[rng.randrange(min(4, len(b)))] ^= rng.choice([1, 2, 4, 128, 255])
                m = frame(ident, bytes(b), s, big)
            else:
                b = bytearray(m)
                b[rng.randrange(len(b))] = rng.randrange(256)
                m = bytes(b)
        data += m
    if rng.random() < .3 and data:
        data = data[:rng.randrange(len(data)) + 1]
    return api, s, big, data


def run(chk):
    chk.model('MC_BinaryServer', 'MC_BinaryServer.cfg' if chk.quick else 'MC_BinaryServer_deep.cfg')
    for bad in ('unsized', 'ignore', 'late'):
        chk.model_must_fail('MC_BinaryServer', 'MC_BinaryServer_%s.cfg' % bad)
    binary = build('binary_server')
    rng = chk.rng
    cases = []
    # every division of two requests into up to three pieces
    for n, (api, s, big) in enumerate([('one', 2, False), ('object', 1, False), ('dynamic', 2, True)] if chk.quick else
                                      [(a, s, b) for a in APIS for s, b in ((1, False), (2, False), (2, True), (4, False), (4, True), (8, False))]):
        data = b''
        while len(data) < 20:
            ident, body = request(rng, api, s, big)
            if len(body) < 14:
                data += frame(ident, body, s, big)
        for i in range(len(data)):
            for j in range(i, len(data), 3 if chk.quick else 1):
                parts = [p for p in (data[:i], data[i:j], data[j:]) if p]
                cases.append(('s%d.%d.%d' % (n, i, j), ['api %s %d %d' % (api, s, big)] + ['recv ' + hexs(p) for p in parts]))
    for i in range(1400 if chk.quick else 12000):
        api, s, big, data = sequence(rng, i % 3 == 0)
        cases.append(('r%d' % i, ['api %s %d %d' % (api, s, big)] + ['recv ' + hexs(p) for p in split(rng, data)]))
    # very many requests, and large ones
    for i in range(16 if chk.quick else 200):
        api, (s, big) = rng.choice(sorted(APIS)), rng.choice([(2, False), (2, True), (4, False), (4, True), (8, False)])
        if rng.random() < .6:
            data = b''.join(frame(*request(rng, api, s, big), s, big) for _ in range(rng.choice([70, 130, 260])))
        else:
            api = 'one'
            n = rng.choice([5000, 32768 - 9, 40000, 65000] + [66000] * (s > 2))
            data = b''.join(frame(bytes(rng.randrange(256) for _ in range(4)), (n + k).to_bytes(s, 'big' if big else 'little') + bytes(rng.randrange(256) for _ in range(n + k)) + b'\1', s, big) for k in range(2))
        cases.append(('l%d' % i, ['api %s %d %d' % (api, s, big)] + ['recv ' + hexs(p) for p in (split(rng, data) if len(data) < 20000 else [data[:9000], data[9000:60000], data[60000:]]) if p]))
    chk.conform(binary, 'T_BinaryServer', 'T_BinaryServer.cfg', cases, corrupt=corrupt, corrupt_n=20)
