"""Generation of HTTP request streams for the checks of the server."""
from vlib import hexs

PATHS = ['/', '/index.html', '/a', '/a/b?x=1&y=%20z', '/very/long/' + 'p' * 90, '*']
TYPES = [None, 'text/plain', 'application/json', 'application/x-www-form-urlencoded', 'multipart/form-data; boundary=x']


def request(rng, small=False, close=False):
    """(bytes, reaches the application)"""
    kind = rng.choice(['GET', 'GET', 'POST', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'G', 'GETT'])
    if small:
        kind = rng.choice(['GET', 'POST', 'PUT'])
    version = 'HTTP/1.1' if rng.random() < .9 else rng.choice(['HTTP/1.0', 'HTTP/2.0', 'HTTP/1.10', 'http/1.1'])
    body = b''
    headers = []
    if rng.random() < .6:
        headers.append((rng.choice(['Host', 'HOST', 'host']), 'x.example'))
    has = kind == 'POST' or rng.random() < .25
    if has:
        n = rng.choice([0, 1, 2, 5, 20]) if small else rng.choice([0, 0, 1, 3, 10, 50, 200, 700, rng.randint(0, 300)])
        if not small and rng.random() < .02:
            n = rng.choice([2047, 2048, 3000, 3072, 4000, 7000])
        body = bytes(rng.choice([rng.randint(0, 255), 13, 10, 32, 71]) for _ in range(n))
        if rng.random() < .1:
            body = (b'GET /body HTTP/1.1\r\n\r\n' * 3)[:max(n, 22)]
        headers.append((rng.choice(['Content-Length', 'content-length', 'CONTENT-LENGTH', 'Content-length']), str(len(body)) if rng.random() < .95 else '0' + str(len(body))))
    t = rng.choice(TYPES)
    if t:
        headers.append((rng.choice(['Content-Type', 'content-type']), t))
    if close:
        headers.append((rng.choice(['Connection', 'connection']), rng.choice(['close', 'close', 'close', 'Close', 'CLOSE', 'close, TE', 'te,close', 'keep-alive , Close', ',close', 'close,x'])))
    elif rng.random() < .15:
        headers.append(('Connection', rng.choice(['keep-alive', 'Keep-Alive', 'upgrade', 'closed', 'not-close', 'x, y', 'clos,e', 'close-'])))
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):
        headers.append((rng.choice(['X-A', 'Accept', 'Cookie', 'Content', 'Content-Lengthy', 'Con-nection', 'a']), rng.choice(['', '1', 'x: y', 'a, b;q=0.5', 'text/html', '9' * 30, 'close'])))
    rng.shuffle(headers)
    text = '%s %s %s\r\n' % (kind, rng.choice(PATHS), version)
    for n, v in headers:
        sep = rng.choice([': ', ':', ':  ', ':\t'])
        text += n + sep + v + '\r\n'
    text += '\r\n'
    return text.encode('latin1') + body, kind in ('GET', 'POST') and version in ('HTTP/1.1', 'HTTP/1.0')


def bulky(rng, size=20000):
    """A request with something large about it."""
    kind = rng.choice(['GET', 'POST', 'POST'])
    path, headers, body = rng.choice(PATHS), [], b''
    if kind == 'POST':
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 4096, 5000, size])))
        headers.append(('Content-Length', str(len(body))))
    k = rng.choice(['path', 'headers', 'value', 'name', 'zeros', 'type'] if len(body) < 100 else ['body', 'headers'])
    if k == 'path':
        path = '/' + 'pq/' * rng.choice([300, 400, 700, 1100]) + '?' + 'x=1&' * rng.choice([0, 300])
    elif k == 'headers':
        headers += [('X-%d' % i, 'v' * (i % 40)) for i in range(rng.choice([17, 33, 65, 101, 130]))]
    elif k == 'value':
        headers.append(('Cookie', 'c=' + 'abc; ' * rng.choice([100, 210, 420, 900]) + 'd'))
    elif k == 'name':
        headers.append(('X-' + 'long' * rng.choice([16, 65, 300]), '1'))
    elif k == 'zeros' and headers:
        headers[0] = ('Content-Length', '0' * rng.choice([4, 8, 20, 40]) + str(len(body)))
    elif k == 'type':
        headers.append(('Content-Type', 'text/plain; x=' + 'y' * rng.choice([100, 300, 1100])))
    rng.shuffle(headers)
    return ('%s %s HTTP/1.1\r\n' % (kind, path) + ''.join('%s: %s\r\n' % h for h in headers) + '\r\n').encode('latin1') + body


def bulk(rng, cid, size=20000):
    """A history with large requests, large replies, or very many of them."""
    if rng.random() < .35:
        n = rng.choice([65, 101, 130, 260])
        parts = [rng.choice([b'GET / HTTP/1.1\r\n\r\n', b'POST /p HTTP/1.1\r\nContent-Length: 1\r\n\r\nz']) for _ in range(n)]
        apps = ['app known x %d 100 %d' % (rng.choice([0, 1, 3]), i) for i in range(n)]
        packets = parts if rng.random() < .5 else split(rng, b''.join(parts), 'few')
    else:
        parts = [bulky(rng, size) if rng.random() < .7 else request(rng, small=True)[0] for _ in range(rng.choice([1, 2, 4]))]
        apps = [outcome(rng) if rng.random() < .8 else 'app %s text/html %d %d 5' % (rng.choice(['known', 'unknown']), rng.choice([4096, 8192, 16384, size, 3 * size]), rng.choice([700, 5000])) for _ in parts]
        packets = split(rng, b''.join(parts), rng.choice(['one', 'two', 'few']))
    return cid, apps + ['recv ' + hexs(p) for p in packets]


def outcome(rng, small=True):
    what = rng.choice(['known', 'unknown', 'known', 'unknown', 'none', 'refuse', 'simple'])
    n = rng.choice([0, 1, 5, 30, 9, 10, 99, 100]) if small else rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 900, 950, 1023, 1024, 1025, 2048, 3000, 3072, 6200, rng.randint(0, 4000)])
    return 'app %s %s %d %d %d' % (what, rng.choice(['text/html', 'application/json', 'x']), n, rng.choice([1, 2, 7, 100, 5000]), rng.randint(0, 999))


def split(rng, data, mode=None):
    """Cut a byte string into packets."""
    mode = mode or rng.choice(['one', 'bytes', 'two', 'few', 'few', 'crlf'])
    if mode == 'one' or len(data) < 2:
        return [data]
    if mode == 'bytes':
        if len(data) > 400:
            mode = 'few'
        else:
            return [data[i:i + 1] for i in range(len(data))]
    cuts = set()
    if mode == 'two':
        cuts = {rng.randint(1, len(data) - 1)}
    elif mode == 'crlf':      # cuts around line ends
        ends = [i for i in range(1, len(data)) if data[i - 1] in (13, 10) or data[i] in (13, 10)]
        cuts = set(rng.sample(ends, min(len(ends), rng.randint(1, 6)))) if ends else set()
    else:
        cuts = {rng.randint(1, len(data) - 1) for _ in range(rng.randint(1, 8))}
    cuts = sorted(cuts)
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


def corrupt(events, rng):
    kinds = ['send', 'call', 'ret', 'dupsend', 'dropsend', 'recv']
    k = rng.choice(kinds)
    if k in ('send', 'dupsend', 'dropsend'):
        c = [i for i, e in enumerate(events) if e['e'] == 'send' and e['b']]
        if not c:
            return None
        i = rng.choice(c)
        if k == 'send':
            events[i]['b'] = events[i]['b'][:-1]
        elif k == 'dupsend':
            events.insert(i, events[i])
        else:
            del events[i]
    elif k == 'call':
        c = [e for e in events if e['e'] == 'call']
        if not c:
            return None
        rng.choice(c)['path'].append(47)
    elif k == 'ret':
        c = [e for e in events if e['e'] == 'ret']
        c[-1]['more'] = not c[-1]['more']
    else:
        return None
    return k, events
