"""The methods of harness/api.hpp and requests for them."""
from checks.codecgen import *
from checks.c12 import value, INT, STR, BOOL, INNER
from checks import httpgen

INNER_ = ('obj', [('x', INT('i32')), ('t', STR), ('l', ('vec', INT('i16')))])
TREE = [
    ('svc.echo', [('s', STR)]), ('svc.add', [('a', INT('i32')), ('b', INT('i32'))]), ('svc.note', [('n', INT('i64'))]),
    ('svc.fail', [('how', INT('i32')), ('s', STR)]), ('svc.list', [('l', ('vec', INT('i32'))), ('o', ('opt', STR))]),
    ('svc.obj', [('p', INNER_), ('q', BOOL)]), ('svc.real', [('x', BOOL), ('y', ('real', 'f64'))]), ('svc.maps', [('m', ('map', INT('i64')))]),
    ('svc.count', [('by', INT('i16'))]), ('n.low.none', []), ('n.low.opt', [('v', ('opt', INT('i32')))]),
    ('n.low.cmp', [('u', INT('u8')), ('s', STR)]), ('n.low.halt', []), ('top', [('v', INT('i64')), ('text', STR)])]
ONE = [('', [('text', STR), ('times', INT('i32')), ('yell', BOOL)])]
API = {'tree': TREE, 'one': ONE}


def blank(rng):
    return jblank(rng) if rng.random() < .25 else ''


def jobject(rng, members):
    return '{' + blank(rng) + (blank(rng) + ',' + blank(rng)).join(jstring(rng, n) + blank(rng) + ':' + blank(rng) + v for n, v in members) + blank(rng) + '}'


def wrong(rng, s):
    """A value that no argument of the type can have."""
    k = s[0]
    if k == 'opt':
        return wrong(rng, s[1])
    options = {'str': ['1', 'true', '[]', '{}', 'null', '-2.5'], 'bool': ['1', '"true"', 'null', '[]'], 'vec': ['1', '{}', 'null', '"a"', '["x"]', '[1,[]]'],
               'map': ['[]', '1', '{"k":"x"}', 'null'], 'obj': ['[]', 'null', '7', '{"x":"1"}', '{"l":[1,"a"]}']}.get(k, ['"1"', 'true', '[]', 'null', '{}', '"x"', '""'])
    return rng.choice(options)


def fail_args(rng):
    return [('how', str(rng.choice([0, 1, 2, 3, 4, 5, 5, 6, 7]))), ('s', jstring(rng))]


def arguments(rng, name, ps, quality):
    """Members of an object with arguments."""
    out = fail_args(rng) if name == 'svc.fail' and rng.random() < .85 else [(n, value(rng, s)) for n, s in ps]
    if rng.random() < .5:
        rng.shuffle(out)
    if out and rng.random() < .15:
        out = rng.sample(out, rng.randint(0, len(out) - 1))
    if quality == 'bad' and ps:
        n, s = rng.choice(ps)
        out = [m for m in out if m[0] != n]
        out.insert(rng.randint(0, len(out)), (n, wrong(rng, s)))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        out.insert(rng.randint(0, len(out)), (rng.choice(['zz', 'A', '', 'aa', 'sss', 'params', 'id', 'method']), jtext(rng, rng.choice([0, 1, 2]))))
    return out


def jsonid(rng):
    r = rng.random()
    if r < .5:
        return str(rng.choice([0, 1, 2, 7, -1, 123456789, 2**31, -2**31, 2**53, 10**17, rng.randint(0, 99)]))
    if r < .8:
        return jstring(rng)
    if r < .86:
        return 'null'
    if r < .93:
        return rng.choice(['1.5', '-0.25', '3.125', '1e3', '0.001'])
    return rng.choice(['true', '[]', '{}', '[1]', '{"a":1}', '99999999999999999999', '1e400'])


def badpath(rng, api):
    return rng.choice(['svc', 'n', 'n.low', 'svc.echo.x', 'svc..echo', '.svc.echo', 'svc.ech', 'svc.echoo', 'Svc.echo', 'nothing', 'n.none', 'low.none', 'add', '..', '.', 'svc.', 'top.top', 'svc/echo', 'topp', 'to'] + ([] if api == 'one' else ['']))


def jsonrequest(rng, api, quality=None):
    """The text of one request object."""
    quality = quality or rng.choices(['good', 'bad', 'path', 'shape'], [70, 10, 10, 10])[0]
    name, ps = rng.choice(API[api])
    members = []
    members.append(('jsonrpc', '"2.0"'))
    members.append(('method', jstring(rng, badpath(rng, api) if quality == 'path' else name + ('.' if rng.random() < .03 and name else ''))))
    if ps or rng.random() < .7:
        members.append(('params', jobject(rng, arguments(rng, name, ps, quality))))
    if rng.random() < .8:
        members.append(('id', jsonid(rng)))
    if quality == 'shape':
        k = rng.choice(['version', 'noversion', 'nomethod', 'method', 'params', 'params', 'dup', 'noparams'])
        at = {n: i for i, (n, _) in enumerate(members)}
        if k == 'version':
            members[0] = ('jsonrpc', rng.choice(['"1.0"', '"2.00"', '2.0', 'null', '""', '[]']))
        elif k == 'noversion':
            del members[0]
        elif k == 'nomethod':
            del members[1]
        elif k == 'method':
            members[1] = ('method', rng.choice(['1', 'null', '[]', '{"a":1}', 'true']))
        elif k == 'dup':
            members.append(rng.choice(members))
        elif 'params' in at:
            if k == 'params':
                members[at['params']] = ('params', rng.choice(['[]', '[1,2]', 'null', '1', '"x"', 'true', '{}', '["a"]']))
            else:
                del members[at['params']]
    r = rng.random()
    if r < .6:
        rng.shuffle(members)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        members.insert(rng.randint(0, len(members)), (rng.choice(['auth', 'Id', '', 'ids', 'meta', 'result', 'METHOD', 'param']), jtext(rng, rng.choice([0, 1, 2, 3]))))
    return jobject(rng, members)


def jsondoc(rng, api):
    r = rng.random()
    if r < .7:
        doc = jsonrequest(rng, api)
    elif r < .92:
        n = rng.choice([0, 1, 2, 2, 3, 4, 6])
        doc = '[' + blank(rng) + (blank(rng) + ',' + blank(rng)).join(
            jsonrequest(rng, api) if rng.random() < .9 else rng.choice(['1', 'null', '"x"', '[]', '{}', 'true', '[{}]', '[[1]]', '-1.5', '""']) for _ in range(n)) + blank(rng) + ']'
    else:
        doc = jtext(rng, 2)
    return (blank(rng) + doc + blank(rng)).encode('utf-8', 'surrogatepass')


def damaged(rng, doc):
    """A document that is not right, or not sure to be."""
    k = rng.random()
    if k < .4 and doc:
        return doc[:rng.randint(0, len(doc) - 1)]
    b = bytearray(doc)
    for _ in range(rng.choice([1, 1, 2, 5])):
        p = rng.randint(0, len(b)) if b else 0
        op = rng.random()
        if op < .35 and b:
            del b[min(p, len(b) - 1)]
        elif op < .7:
            b.insert(p, rng.choice(b'{}[],:"\\0123456789.-eEtfnu \x00\xff\x80'))
        elif b:
            b[min(p, len(b) - 1)] = rng.choice(b'{}[],:"\\019.-et \x00\xff')
    return bytes(b)


# ---- forms and queries

def plain(rng, s):
    k = s[0]
    if k == 'int':
        return str(integer(rng, *RANGE[s[1]]))
    if k == 'real':
        return repr(real(rng))
    if k == 'bool':
        return 'true'
    if k == 'opt':
        return '' if rng.random() < .3 else plain(rng, s[1])
    if k == 'str':
        return None
    return rng.choice(['x', '[]', '{}', '1', ''])


def fields(rng, name, ps, wild=True):
    out = []
    for n, s in ps:
        v = plain(rng, s)
        if wild and rng.random() < .06:
            v = rng.choice(['x', '', '12x', '-', '+5', ' 7', '99999999999999999999999', '1.5', 'null', 'NaN'])
        if name == 'svc.fail' and n == 'how' and rng.random() < .8:
            v = str(rng.randint(0, 7))
        if s == BOOL and rng.random() < .4:
            continue
        out.append((n, text(rng, True) if v is None else v))
    if rng.random() < .5:
        rng.shuffle(out)
    if out and rng.random() < .15:
        out = rng.sample(out, rng.randint(0, len(out) - 1))
    if out and rng.random() < .05:
        out.append(rng.choice(out))
    for _ in range(rng.choice([0, 0, 0, 1])):
        out.insert(rng.randint(0, len(out)), (rng.choice(['zz', 'A', 'other name', 'aa', 'sss']), text(rng, True)))
    return b'&'.join(fescape(rng, n) + b'=' + fescape(rng, v) for n, v in out)


def webpath(rng, api, quality='good'):
    name, ps = rng.choice(API[api])
    if quality == 'bad':
        return '', [], ('/' + badpath(rng, api).replace('.', '/'))
    return name, ps, '/' + name.replace('.', '/') + ('/' if rng.random() < .05 and name else '')


def http(rng, kind, path, body=None, ctype=None, close=False, extra=True):
    headers = []
    if extra and rng.random() < .5:
        headers.append(('Host', 'x.example'))
    if body is not None:
        headers.append((rng.choice(['Content-Length', 'content-length']), str(len(body))))
    if ctype:
        headers.append((rng.choice(['Content-Type', 'content-type', 'CONTENT-TYPE']), ctype))
    if close:
        headers.append(('Connection', 'close'))
    if extra and rng.random() < .2:
        headers.append(('Accept', 'text/html'))
    rng.shuffle(headers)
    return (kind + ' ' + path + ' HTTP/1.1\r\n' + ''.join(n + ': ' + v + '\r\n' for n, v in headers) + '\r\n').encode('latin1') + (body or b'')


def pieces(rng, data):
    return ['recv ' + hexs(p) for p in httpgen.split(rng, data, rng.choice(['one', 'one', 'two', 'few']))]


def corrupt(events, rng):
    """A recording that the specification must refuse."""
    k = rng.choice(['call', 'call', 'arg', 'send', 'body', 'dup', 'result'])
    calls = [i for i, e in enumerate(events) if e['e'] == 'call']
    sends = [i for i, e in enumerate(events) if e['e'] == 'send' and e['b']]
    if k == 'call' and calls:
        del events[rng.choice(calls)]
    elif k == 'dup' and calls:
        i = rng.choice(calls)
        events.insert(i, events[i])
    elif k == 'arg' and calls:
        e = events[rng.choice(calls)]
        if not e['a']['v']:
            return None
        m = rng.choice(e['a']['v'])[1]
        if m['t'] == 'int':
            m['v'] = [49, 50, 49]
        elif m['t'] == 'str':
            m['v'] = m['v'] + [66]
        elif m['t'] == 'bool':
            m['v'] = not m['v']
        else:
            return None
    elif k == 'send' and sends:
        del events[rng.choice(sends)]
    elif k == 'body' and sends:
        e = events[rng.choice(sends)]
        e['b'] = e['b'][:-1]
    else:
        return None
    return k, events
