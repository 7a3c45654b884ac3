"""Requests of the binary protocol for the APIs in BinaryApi.tla."""
import struct
from checks.codecgen import integer

I4, I2, U1, I8, S, B, F8 = ('n', 4, True), ('n', 2, True), ('n', 1, False), ('n', 8, True), ('s',), ('b',), ('f8',)
POINT = ('r', [I2, U1, S])
APIS = {
    'dynamic': {(0,): [I4, I4], (1,): [('l', S)], (2, 0): [B, F8, I8], (2, 1, 0): [], (2, 1, 1): [('o', S)], (2, 2): [('l', ('l', I2))],
                (3,): [I4], (4,): [I4], (5,): [POINT]},
    'object': {(0,): [], (1,): [S], (2,): [U1, B]},
    'wide': {(i,): [U1] for i in range(200)},
    'one': {(): [S, U1]},
}


def num(n, size, big):
    return (n % 256 ** size).to_bytes(size, 'big' if big else 'little')


def encode(rng, t, s, big, small):
    if t[0] == 'n':
        lo, hi = (-(256 ** t[1] // 2), 256 ** t[1] // 2 - 1) if t[2] else (0, 256 ** t[1] - 1)
        return num(integer(rng, lo, hi), t[1], big)
    if t[0] == 'f8':
        return struct.pack('>d' if big else '<d', rng.choice([0.0, -1.5, 3.25, 1e300, rng.uniform(-9, 9)]))
    if t[0] == 'b':
        return bytes([rng.randint(0, 1)])
    if t[0] == 's':
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 12 if small else 60)] + ([] if small or rng.random() > .1 else [rng.randint(200, 3000)]))
        if s == 1:
            n = min(n, 120)
        return num(n, s, big) + bytes(rng.randrange(256) for _ in range(n))
    if t[0] == 'l':
        n = rng.choice([0, 1, 2, rng.randint(0, 5)])
        return num(n, s, big) + b''.join(encode(rng, t[1], s, big, True) for _ in range(n))
    if t[0] == 'o':
        return b'\0' if rng.random() < .4 else b'\1' + encode(rng, t[1], s, big, small)
    return b''.join(encode(rng, x, s, big, small) for x in t[1])


def request(rng, api, s, big, path=None, args=None):
    methods = APIS[api]
    if path is None:
        path = rng.choice(sorted(methods))
    if args is None:
        if path == (3,) and api == 'dynamic':
            around = {1: 250, 2: 65528, 4: 300, 8: 300}[s]
            args = num(rng.choice([0, 1, around - 1, around, around + 1, around - 2, 300 if s != 1 else 10, rng.randint(0, 500)]), 4, big)
        else:
            args = b''.join(encode(rng, t, s, big, False) for t in methods[path])
    body = bytes(path) + args
    ident = bytes(rng.randrange(256) for _ in range(4))
    return ident, body


def frame(ident, body, s, big, delta=0):
    return ident + num(4 + s + len(body) + delta, s, big) + body


def split(rng, data):
    k = rng.random()
    if k < .25:
        return [data]
    if k < .35 and len(data) < 300:
        return [bytes([c]) for c in data]
    out, at = [], 0
    while at < len(data):
        n = rng.choice([1, 2, 3, 5, 6, 7, 10, 40, rng.randint(1, 400), 2000])
        out.append(data[at:at + n])
        at += n
    return out
