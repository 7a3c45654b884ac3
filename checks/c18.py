"""C18: HTTP requests to methods run the named method once with their arguments."""
from checks.rpcgen import *
from vlib import build

FORM = 'application/x-www-form-urlencoded'


def get(rng, api, pages):
    r = rng.random()
    if r < .12:
        path = rng.choice([p for p in pages] + ['/none', '/'])
        return http(rng, 'GET', path + ('?' + fields(rng, *rng.choice(API[api])).decode('latin1') if rng.random() < .3 else ''), extra=rng.random() < .3)
    name, ps, path = webpath(rng, api, 'bad' if r < .25 else 'good')
    if r >= .92:
        return http(rng, 'GET', path)
    q = fields(rng, name, ps)
    return http(rng, 'GET', path + '?' + q.decode('latin1'), extra=rng.random() < .3)


def post(rng, api, kind):
    name, ps, path = webpath(rng, api, 'bad' if rng.random() < .12 else 'good')
    if kind == 'json':
        r = rng.random()
        if r < .7:
            return http(rng, 'POST', path, jsondoc(rng, api), 'application/json', extra=rng.random() < .3)
        return http(rng, 'POST', path, fields(rng, name, ps), rng.choice([FORM, None, 'text/plain']), extra=rng.random() < .3)
    return http(rng, 'POST', path, fields(rng, name, ps), FORM if rng.random() < .9 else rng.choice([None, 'text/plain', 'application/json']), extra=rng.random() < .3)


def case(rng, i):
    api = rng.choice(['tree', 'tree', 'tree', 'one'])
    kind = rng.choice(['json', 'form', 'form'])
    lines = ['server %s %s' % (kind, api)]
    pages = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        p = rng.choice(['/', '/index.html', '/svc', '/top', '/svc/echo', '/svc/count', '/n/low/none', '/svc/fail', '/svc/add/', '/svc/list'])
        if p not in pages:
            pages.append(p)
            lines.append('page %s %s' % (hexs(p), hexs(('page ' + p) * rng.choice([1, 1, 30]) if rng.random() < .9 else '')))
    parts = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < .5:
            parts.append(get(rng, api, pages))
        elif r < .92:
            parts.append(post(rng, api, kind))
        else:
            parts.append(http(rng, rng.choice(['PUT', 'HEAD', 'DELETE', 'get', 'post']), webpath(rng, api)[2], b'n=1', FORM))
    return ('w%d' % i, lines + pieces(rng, b''.join(parts)))


def run(chk):
    chk.model('MC_RpcHttp', 'MC_RpcHttp.cfg')
    for bug in ('page', 'twice', 'plain', 'merge'):
        chk.model_must_fail('MC_RpcHttp', 'MC_RpcHttp_%s.cfg' % bug)
    binary = build('rpc_http')
    cases = [case(chk.rng, i) for i in range(1800 if chk.quick else 20000)]
    # long values, many unknown fields, large pages
    rng = chk.rng
    for i in range(24 if chk.quick else 300):
        kind = rng.choice(['json', 'form'])
        lines = ['server %s tree' % kind]
        if rng.random() < .4:
            lines.append('page %s %s' % (hexs('/page'), hexs('p' * rng.choice([5000, 20000]))))
        parts = []
        for _ in range(rng.choice([1, 2, 3])):
            q = b's=' + fescape(rng, longtext(rng)[:rng.choice([200, 800])]) if rng.random() < .5 else \
                b'&'.join(rng.sample([b'unknown%d=%d' % (j, j) for j in range(rng.choice([20, 64, 120]))] + [b's=found'], k=21)) + b'&z=1'
            r = rng.random()
            if r < .3:
                parts.append(http(rng, 'GET', '/page'))
            parts.append(http(rng, 'GET', '/svc/echo?' + q.decode('latin1')) if r < .6 or kind == 'json' else http(rng, 'POST', '/svc/echo', q, FORM))
        cases.append(('l%d' % i, lines + pieces(rng, b''.join(parts))))
    chk.conform(binary, 'T_RpcHttp', 'T_RpcHttp.cfg', cases, corrupt=corrupt, corrupt_n=24)
