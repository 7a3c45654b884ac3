"""C03: exactly one well-formed reply per request, for every outcome of the application."""
from checks.httpgen import *

KINDS = ['known', 'simple', 'unknown', 'none', 'refuse', 'fail', 'failint', 'unknownthrow', 'knownthrow', 'knownfail', 'unknownfail']


def run(chk):
    from vlib import build
    binary = build('http_server')
    rng = chk.rng
    cases = []
    sizes = [0, 1, 9, 10, 11, 99, 100, 101, 940, 945, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 970, 999, 1000, 1023, 1024,
             1025, 1976, 1984, 2000, 2047, 2048, 2049, 3000, 3001, 3072, 3073, 5000, 6100, 6144, 6200, 9999, 10000]
    i = 0
    for what in KINDS:
        for size in sizes if what in ('known', 'unknown', 'simple') else [0, 1, 10, 700, 1500, 2200]:
            for piece in [1, 13, 100000] if size < 1100 else [500, 100000]:
                if what not in ('known', 'unknown', 'simple') and piece == 13:
                    continue
                req = b'GET /x HTTP/1.1\r\n\r\n' if i % 2 else b'POST /y HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc'
                lines = ['app %s text/html %d %d %d' % (what, size, piece, i), 'app none x 0 1 1', 'recv ' + hexs(req)]
                if i % 3 == 0:
                    lines.append('recv ' + hexs(b'GET /again HTTP/1.1\r\n\r\n'))
                cases.append(('s%d' % i, lines))
                i += 1
    for i in range(1600 if chk.quick else 16000):
        parts, apps = [], []
        for k in range(rng.choice([1, 2, 3, 4, 6])):
            r, app = request(rng, small=rng.random() < .7, close=rng.random() < .1)
            parts.append(r)
            if rng.random() < .4:
                apps.append('app %s %s %d %d %d' % (rng.choice(KINDS), rng.choice(['a/b', 'text/html', 'x' * rng.randint(1, 80)]), rng.choice([0, 5, 100, 1000, 2500]), rng.choice([1, 3, 100, 4000]), i))
            else:
                apps.append(outcome(rng, small=rng.random() < .7))
        cases.append(('r%d' % i, apps + ['recv ' + hexs(p) for p in split(rng, b''.join(parts), rng.choice(['one', 'one', 'two', 'few']))]))
    cases += [bulk(rng, 'l%d' % i, rng.choice([20000, 70000])) for i in range(30 if chk.quick else 300)]
    chk.conform(binary, 'T_HttpServer', 'T_HttpServer_strict.cfg', cases, corrupt=corrupt)
