"""C21: the JavaScript client."""
import json, os
from vlib import REPO

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'js_client.mjs')
NAMES = ['a', 'b', 'count', 'text', 'x', 'y', 'new', 'class', 'result', 'request', 'value', 'Message', 'arg_a', 'i', 'i0', 'name', 'id', 'method', 'response', 'param_1', '_', 'index', 'length', 'e', 'types', 'path']
CLASSES = ['Message', 'Point', 'Thing', 'N3Foo3BarE', 'Shape', 'object_1', 'Array1']
DOCS = ['', '', 'what it does', 'more */ or less', 'two\nlines', 'a `quoted` ${text} "and" \'others\'', '/* inside */', '\\']
NUM, STR, BOOL, MAP = ({'k': k} for k in ('num', 'str', 'bool', 'map'))


def text(r):
    return ''.join(r.choice(['a', 'b', ' ', '"', '\\', '\n', "'", '<', 'ž', '語', '\U0001f600', '\x01', '{', '0', '`', '${x}']) for _ in range(r.choice([0, 1, 2, 5, 20])))


def number(r):
    x = r.choice([0, 1, -1, 7, 255, -32768, 2**31, 2**53 - 1, .5, -.25, 1e21, 1.5e-7, 123456.789, r.uniform(-1e6, 1e6), r.randrange(-10**9, 10**9)])
    return repr(x)


def a_type(r, classes, depth=0):
    x = r.random()
    if x < .25 and depth < 3:
        return {'k': 'arr', 'of': a_type(r, classes, depth + 1)}
    if x < .45 and classes:
        return {'k': 'cls', 'n': r.choice(classes)}
    return r.choice([NUM, NUM, STR, STR, BOOL, MAP])


def describe(r, more=()):
    types, known = [], []
    for n in r.sample(CLASSES, r.choice([0, 1, 2, 3])):
        types.append([n, [[m, a_type(r, known)] for m in r.sample(NAMES, r.choice([0, 1, 2, 3, 4]))]])
        known.append(n)
    paths = []

    def tree(prefix, depth):
        for n in r.sample(NAMES + ['constructor', 'toString', 'valueOf', 'then'] * (depth < 2) + list(more), r.choice([1, 2, 3])):
            if r.random() < .3 and depth < 3:
                tree(prefix + n + '.', depth + 1)
            else:
                paths.append(prefix + n)
    tree('', 0)
    methods = []
    for p in paths:
        params = [[n, a_type(r, known), r.random() < .3, r.choice(DOCS)] for n in r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 5]))]
        methods.append({'name': p, 'doc': r.choice(DOCS), 'params': params, 'ret': r.choice([None, NUM, a_type(r, known)]),
                        'shuffled': r.sample(range(len(params)), len(params))})
    listed = types[:]
    r.shuffle(listed)
    return {'service': text(r), 'types': listed, 'methods': methods}


def value(r, t, types, wrong=False):
    """A value of the type (or of another one, somewhere inside)."""
    k = t['k']
    if wrong and (k not in ('arr', 'cls') or r.random() < .5):
        others = [{'k': 'num', 's': '3'}, {'k': 'str', 's': 'text'}, {'k': 'bool', 'v': True}, {'k': 'none', 'v': True}, {'k': 'none', 'v': False},
                  {'k': 'arr', 'v': [{'k': 'num', 's': '1'}]}, {'k': 'map', 'v': [['a', {'k': 'num', 's': '1'}]]}, {'k': 'map', 'v': []}, {'k': 'str', 's': ''}, {'k': 'num', 's': '0'}]
        others += [value(r, {'k': 'cls', 'n': n}, types) for n, _ in types if k not in ('cls', 'map') or n != t.get('n')] * (k != 'map')
        return r.choice([o for o in others if o['k'] != k])
    if k == 'num':
        return {'k': 'num', 's': number(r)}
    if k == 'str':
        return {'k': 'str', 's': text(r)}
    if k == 'bool':
        return {'k': 'bool', 'v': r.random() < .5}
    if k == 'arr':
        n = r.choice([0, 1, 2, 3, 4])
        bad = r.randrange(n) if wrong and n else -1
        if wrong and not n:
            return value(r, t, types, True)
        return {'k': 'arr', 'v': [value(r, t['of'], types, i == bad) for i in range(n)]}
    if k == 'map':
        return plain(r, 0)
    members = dict((n, m) for n, m in types)[t['n']]
    if wrong and not members:
        return {'k': 'none', 'v': True}
    bad = r.randrange(len(members)) if wrong else -1
    made = [[n, value(r, m, types, i == bad)] for i, (n, m) in enumerate(members)]
    for m in made:
        if m[1]['k'] == 'none':
            m[1]['v'] = True
    if r.random() < .15:
        made = made[:r.randint(0, len(made))]
        return {'k': 'inst', 'n': t['n'], 'v': made, 'first': len(made)}
    # Others can be added, they aren't declared
    if r.random() < .25:
        made.append(['not_declared', {'k': 'num', 's': '5'}])
    return {'k': 'inst', 'n': t['n'], 'v': made, 'first': r.choice([len(members), len(members), r.randint(0, len(members))])}


def plain(r, depth):
    x = r.random()
    if depth and x < .7:
        return r.choice([{'k': 'num', 's': number(r)}, {'k': 'str', 's': text(r)}, {'k': 'bool', 'v': False}, {'k': 'none', 'v': True}])
    if depth and x < .85 or depth > 2:
        return {'k': 'arr', 'v': [plain(r, depth + 1) for _ in range(r.choice([0, 1, 2]))]} if depth < 3 else {'k': 'num', 's': '1'}
    return {'k': 'map', 'v': [[n, plain(r, depth + 1)] for n in r.sample(['key', 'with space', '', '"', 'ž', 'a', 'toJson'], r.choice([0, 1, 2, 3]))]}


def answer(r, depth=0):
    x = r.random()
    if x < .7 or depth > 2:
        return r.choice([0, 1, -5, .5, True, False, None, '', text(r), text(r)])
    if x < .85:
        return [answer(r, depth + 1) for _ in range(r.choice([0, 1, 3]))]
    return {n: answer(r, depth + 1) for n in r.sample(['key', 'error', '', 'result', 'a b'], r.choice([0, 1, 2]))}


def case(r, i):
    lines, calls = [], 0
    for _ in range(r.choice([1, 1, 2])):
        d = describe(r)
        node = r.random() < .4
        base = r.choice(['-', 'http://example.com/', 'http://0.0.0.0:8080/'] + (['0.0.0.0:8080', 'localhost:1234', '10.0.0.1:80/', 'https://example.com', 'http://e.com/api/'] if node else ['/', 'api/', '/some/path/']))
        lines += ['desc ' + json.dumps(d), 'load %s %s' % ('node' if node else 'window', base)]
        waiting, before, repeated = 0, set(), 0
        for _ in range(r.choice([3, 8, 15])):
            x = r.random()
            if x < .6:
                m = r.choice(d['methods'])
                wrong = r.randrange(len(m['params'])) if m['params'] and r.random() < .3 else -1
                args = []
                for k, (n, t, optional, _) in enumerate(m['params']):
                    if k != wrong and optional and r.random() < .5:
                        args.append({'k': 'none', 'v': r.random() < .5})
                    else:
                        args.append(value(r, t, d['types'], k == wrong))
                if r.random() < .1:
                    args.append({'k': 'num', 's': '1'})
                elif r.random() < .2:
                    while args and args[-1]['k'] == 'none':
                        args.pop()
                # Equal calls can't be distinguished by their requests, many of them would leave too many possibilities
                key = json.dumps([m['name'], [a for a in args if a['k'] != 'none']])
                repeated += key in before
                if key in before and repeated > 4:
                    continue
                before.add(key)
                calls += 1
                lines.append('call %d %s %s' % (calls, m['name'], json.dumps(args)))
                waiting += 1
            elif x < .85 and waiting:
                kind = r.choice(['result'] * 5 + ['error', 'error', 'broken', 'lost'])
                lines.append('respond %d %s %s' % (r.randrange(10), kind, json.dumps('some trouble ' + text(r) if kind == 'error' else answer(r))))
                waiting -= 1
            else:
                lines.append('flush')
        order = list(range(waiting))
        for _ in order:
            lines.append('respond %d result %s' % (r.randrange(10), json.dumps(answer(r))))
        lines.append('flush')
    return 'j%d' % i, lines


def corrupt(events, rng):
    k = rng.choice(['sent', 'settled', 'lost', 'order'])
    at = [i for i, e in enumerate(events) if e['e'] == ('sent' if k == 'sent' else 'settled')]
    if not at:
        return None
    i = rng.choice(at)
    if k == 'sent':
        b = bytes(events[i]['b'])
        at = rng.choice([b'"params":{', b'"method":"', b'"jsonrpc":"2', b'"id":'])
        events[i]['b'] = list(b.replace(at, at + {b'"params":{': b'"zz":1' + (b'' if b'"params":{}' in b else b','), b'"method":"': b'q', b'"jsonrpc":"2': b'1', b'"id":': b'0.5,"id":'}[at]))
    elif k == 'settled':
        events[i]['ok'] = not events[i]['ok']
    elif k == 'lost':
        del events[i]
    else:
        if not events[i]['ok']:
            return None
        events[i]['b'] = list(b'"another"')
    return k, events


def run(chk):
    chk.model('MC_JsClient', 'MC_JsClient.cfg' if chk.quick else 'MC_JsClient_deep.cfg')
    for bug in ('raw', 'late', 'shared', 'unchecked'):
        chk.model_must_fail('MC_JsClient', 'MC_JsClient_%s.cfg' % bug)
    cases = [case(chk.rng, i) for i in range(1000 if chk.quick else 8000)]
    chk.conform('node', 'T_JsClient', 'T_JsClient.cfg', cases, args=(HARNESS, os.path.join(REPO, 'public_html', 'bomba.js')), corrupt=corrupt, corrupt_n=24)
