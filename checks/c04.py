"""C04: malformed or hostile bytes to the HTTP and binary servers."""
from checks import binarygen, c18, c19, rpcgen
from checks.httpgen import *
from checks.httpgen import corrupt as httpcorrupt

CHUNKS = [b'GET ', b'POST ', b'HEAD ', b'/', b'/a?b=c', b' ', b'  ', b'HTTP/1.1', b'HTTP/1.0', b' HTTP/1.1', b'\r\n', b'\r\n', b'\r\n', b'\r', b'\n', b':', b': ', b' :', b'\t', b'a', b'a: b',
          b'Content-Length', b'content-length: ', b'Content-Length:3', b'Content-Length: 0', b'Content-Length: -1', b'Content-Length: 99999999999999999999', b'Content-Length: 2147483647', b'Content-Length: 2147483648',
          b'Content-Length: 4294967297', b'Content-Length: 1x', b'Content-Length:', b'Content-Length: +1', b'Content-Length: 1 1', b'Connection: close', b'Connection:', b'Content-Type: text/plain', b'Content-Type:',
          b'3', b'abc', b'\x00', b'\xff', b'GET / HTTP/1.1\r\n', b'POST / HTTP/1.1\r\n', b'GET / HTTP/1.1\r\n\r\n', b'POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\nab', b'x' * 200, b'a: ' + b'y' * 1500 + b'\r\n', b'\r\n\r\n']
LINES = [b'', b'a', b'a b', b'a: b', b' a: b', b'\ta', b': x', b':', b'a:', b'a :b', b'a\t:b', b'a:b\r', b'a\r', b'\r', b'\n', b'a\n', b'a: b\nc: d', b'a\x00: b', b'\xff\xfe: \xfd', b'a::b', b'a: :b', b'a:' + b' ' * 300, b'z' * 3000 + b': 1',
         b'Content-Length: 3', b'Content-Length: 0', b'Content-Length: 5', b'Content-Length: x', b'Content-Length:', b'Content-Length: ', b'Content-Length: -3', b'Content-Length: 3x', b'Content-Length: 0x3', b'Content-Length: 3 ', b'Content-Length:3\t',
         b'Content-Length: 3,3', b'Content-Length: 99999999999', b'Content-Length: 2147483647', b'Content-Length: 2147483648', b'Content-Length: 18446744073709551616', b'Content-Length', b'content-length 3', b'CONTENT-LENGTH: 03', b'Content-Length: 3\r',
         b'Content-Length: 3.0', b'Content-Length: 3e0', b'Content-Length : 3', b'Content-Type', b'Content-Type: ', b'Connection', b'Connection: CLOSE', b'Connection:close,close', b'Transfer-Encoding: chunked']
FIRST = [b'GET / HTTP/1.1', b'POST / HTTP/1.1', b'GET /', b'GET', b'', b' ', b'  ', b'   ', b'GET  HTTP/1.1', b'GET / HTTP/1.1 ', b'GET /a b HTTP/1.1', b'POST  / HTTP/1.1', b'/ / /', b'GET /\rx HTTP/1.1', b'GET / HTTP/1.1\r', b'GET\t/\tHTTP/1.1',
         b'\x00 \x00 \x00', b'\xff\xff\xff', b'HTTP/1.1 200 OK', b'GET / HTTP/9.9', b'G' * 2000 + b' / HTTP/1.1', b'GET /' + b'p' * 3000 + b' HTTP/1.1', b'POST / HTTP/1.', b'GET ? HTTP/1.1', b'POST * HTTP/1.1', b'OPTIONS * HTTP/1.1', b'GET /\n HTTP/1.1']


def mutated(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        p = rng.randrange(len(b) + 1)
        k = rng.random()
        if k < .25 and b:
            del b[min(p, len(b) - 1)]
        elif k < .45:
            b[p:p] = bytes([rng.choice([13, 10, 32, 58, 9, 0, 255, rng.randrange(256)])])
        elif k < .65 and b:
            b[min(p, len(b) - 1)] = rng.choice([13, 10, 32, 58, 48, rng.randrange(256)])
        elif k < .8:
            b[p:p] = rng.choice(CHUNKS)
        elif k < .9:
            q = rng.randrange(len(b) + 1)
            del b[min(p, q):max(p, q)]
        else:
            q = rng.randrange(len(b) + 1)
            b[p:p] = b[min(p, q):max(p, q)][:300]
    return bytes(b)


def httpstream(rng, valid):
    r = rng.random()
    if r < .35:
        data = b''.join(rng.choice(CHUNKS) for _ in range(rng.choice([1, 2, 3, 5, 8, 12, 20])))
    elif r < .7:
        data = rng.choice(FIRST) if rng.random() < .4 else rng.choice(FIRST[:2])
        data += b'\r\n' + b''.join(rng.choice(LINES) + b'\r\n' for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))) + b'\r\n' + rng.choice([b'', b'abc', b'abcde'])
        if rng.random() < .2:
            data += mutated(rng, data)
    elif r < .95:
        data = mutated(rng, b''.join(valid(rng) for _ in range(rng.choice([1, 1, 2, 3]))))
    else:
        data = bytes(rng.randrange(256) for _ in range(rng.choice([1, 5, 40, 400, 4000])))
    if rng.random() < .3:
        data += valid(rng)
    if len(data) > 9000:
        data = data[:9000]
    return data


def hostilerpc(rng, i):
    """Well-framed requests with bodies and queries that are not right."""
    api = rng.choice(['tree', 'tree', 'one'])
    kind = rng.choice(['json', 'json', 'form'])
    parts = []
    for _ in range(rng.choice([1, 2, 3])):
        name, ps, path = rpcgen.webpath(rng, api, 'bad' if rng.random() < .1 else 'good')
        if rng.random() < .35:
            q = rpcgen.damaged(rng, rpcgen.fields(rng, name, ps)) if rng.random() < .8 else bytes(rng.choice(b'%&=+a1#;\x80x') for _ in range(rng.randint(1, 30)))
            q = bytes(c for c in q if c > 32 and c != 127)
            parts.append(rpcgen.http(rng, 'GET', path + '?' + q.decode('latin1')))
        elif kind == 'json':
            doc = rpcgen.jsondoc(rng, api)
            r = rng.random()
            if r < .75:
                doc = rpcgen.damaged(rng, doc)
            elif r < .85:
                doc = bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))
            else:
                doc = rng.choice([b'[', b'{', b'{"a":', b'[[', b'"\\u12', b'{"id":1,"params":[', b'{"method":"', b'1', b'-', b'[1,', b'{"id":', b'\\', b'"\\']) * rng.choice([1, 1, 2, 30])
            parts.append(rpcgen.http(rng, 'POST', path, doc, 'application/json'))
        else:
            body = rpcgen.fields(rng, name, ps)
            body = rpcgen.damaged(rng, body) if rng.random() < .7 else bytes(rng.choice(b'%&=+a1#;\x80\x00') for _ in range(rng.randint(0, 60)))
            parts.append(rpcgen.http(rng, 'POST', path, body, c18.FORM))
    if rng.random() < .4:
        data = mutated(rng, b''.join(parts))
    else:
        data = b''.join(parts)
    return 'p%d' % i, ['server %s %s' % (kind, api)] + ['recv ' + hexs(p) for p in split(rng, data, rng.choice(['one', 'two', 'few']))]


def run(chk):
    from vlib import build
    for cfg in ('', '_whole') if chk.quick else ('', '_whole', '_deep'):
        chk.model('MC_HttpServer', 'MC_HttpServer%s.cfg' % cfg, workers=2)
    for bad in ('swallow', 'cr', 'unsized'):
        chk.model_must_fail('MC_HttpServer', 'MC_HttpServer_%s.cfg' % bad)
    rng = chk.rng
    http = build('http_server')
    binary = build('binary_server')
    rpc = build('rpc_http')

    cases = []
    for first in FIRST:
        for k, line in enumerate(LINES if first in FIRST[:2] else LINES[:3]):
            data = first + b'\r\n' + line + b'\r\n\r\nabc' + b'GET /next HTTP/1.1\r\n\r\n'
            cases.append(('l%d' % len(cases), [outcome(rng) for _ in range(3)] + ['recv ' + hexs(p) for p in split(rng, data, rng.choice(['one', 'two', 'crlf', 'bytes']))]))
    for i in range(900 if chk.quick else 15000):
        data = httpstream(rng, lambda r: request(r, small=r.random() < .7, close=r.random() < .05)[0])
        cases.append(('h%d' % i, [outcome(rng) for _ in range(4)] + ['recv ' + hexs(p) for p in split(rng, data)]))
    chk.conform(http, 'T_HttpServer', 'T_HttpServer.cfg', cases, corrupt=None)

    cases = []
    for i in range(700 if chk.quick else 10000):
        if rng.random() < .75:
            api, s, big, data = c19.sequence(rng, False)
            if rng.random() < .5 and data:
                data = mutated(rng, data)
        else:
            api, s = rng.choice(sorted(binarygen.APIS)), rng.choice([1, 2, 4, 8])
            big = s != 8 and rng.random() < .3
            data = bytes(rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(rng.choice([3, 5, 8, 12, 30, 200])))
            if rng.random() < .6:
                data = data[:4] + binarygen.num(rng.choice([0, 4 + s, 5 + s, len(data), len(data) - 1, len(data) + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 256 ** s - 1]), s, big) + data[4:]
        cases.append(('b%d' % i, ['api %s %d %d' % (api, s, big)] + ['recv ' + hexs(p) for p in binarygen.split(rng, data)]))
    chk.conform(binary, 'T_BinaryServer', 'T_BinaryServer.cfg', cases)

    cases = [hostilerpc(rng, i) for i in range(700 if chk.quick else 12000)]
    chk.conform(rpc, 'T_RpcHttp', 'T_RpcHttp.cfg', cases)
