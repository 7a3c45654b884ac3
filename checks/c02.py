"""C02: replies do not depend on the division of the stream into packets."""
from checks.httpgen import *


def run(chk):
    from vlib import build
    chk.model('HttpParser', 'MC_HttpParser.cfg')
    binary = build('http_server')
    rng = chk.rng
    cases = []
    # Every division of short streams into two packets, and byte by byte
    for i in range(6 if chk.quick else 40):
        parts, apps = [], []
        for k in range(rng.randint(1, 3)):
            r, app = request(rng, small=True, close=rng.random() < .1)
            parts.append(r)
            apps.append(outcome(rng))
        data = b''.join(parts)
        for cut in range(0, len(data)):
            pieces = [data[:cut], data[cut:]] if cut else [data]
            cases.append(('e%d.%d' % (i, cut), apps + ['recv ' + hexs(p) for p in pieces]))
        cases.append(('b%d' % i, apps + ['recv ' + hexs(data[k:k + 1]) for k in range(len(data))]))
    for i in range(1200 if chk.quick else 8000):
        parts, apps = [], []
        for k in range(rng.choice([1, 2, 3, 4, 6])):
            r, app = request(rng, close=rng.random() < .05)
            parts.append(r)
            apps.append(outcome(rng, small=rng.random() < .9))
        data = b''.join(parts)
        cases.append(('r%d' % i, apps + ['recv ' + hexs(p) for p in split(rng, data)]))
    cases += [bulk(rng, 'l%d' % i) for i in range(30 if chk.quick else 300)]
    chk.conform(binary, 'T_HttpServer', 'T_HttpServer_strict.cfg', cases, corrupt=lambda e, r: corrupt(e, r))
