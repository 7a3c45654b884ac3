"""C09: JSON written is valid and reads back equal; valid JSON is read as what it denotes."""
from checks.codecgen import *
from vlib import build


def corrupt(events, rng):
    """A trace in which the writer or the reader did something else."""
    idx = [i for i, e in enumerate(events) if e['e'] in ('text', 'int', 'str', 'real', 'bool', 'next', 'member', 'skip', 'oend', 'end', 'done')]
    if not idx:
        return None
    i = rng.choice(idx)
    e = events[i]
    if not any(x['e'] == 'done' for x in events):
        return None
    if e['e'] == 'text':
        b = e['b']
        if len(b) < 2:
            return None
        del b[rng.randrange(len(b) - 1) if b[0] in (91, 123) else len(b) - 1]
        if not events[1:i]:
            return None
        # removing a byte may leave a text that denotes the same (a blank, a last digit of a real number)
        if any(x['e'] in ('wf',) for x in events):
            return None
        return 'a byte missing in the text', events
    if e['e'] == 'int':
        e['t'] = list(str(int(bytes(e['t'])) + 1).encode())
        return 'wrong integer', events
    if e['e'] == 'str':
        e['v'] = e['v'] + [65]
        return 'wrong string', events
    if e['e'] in ('bool', 'next'):
        e['v'] = not e['v']
        return 'wrong ' + e['e'], events
    if e['e'] == 'done':
        del events[i - 1]
        return 'something not read', events
    if e['e'] == 'real':
        if not e['x']['d']:
            return None
        for k in ('lo', 'x', 'hi'):
            e[k]['e'] += 1
        return 'wrong real number', events
    del events[i]
    return e['e'] + ' missing', events


def run(chk):
    chk.model('MC_Json', 'MC_Json.cfg')
    for bad in ('noescape', 'nosep', 'skipraw'):
        chk.model_must_fail('MC_Json', 'MC_Json_%s.cfg' % bad)
    binary = build('struct_io')
    rng = chk.rng
    cases = []
    # every small document over the tricky characters, from the specification
    docs = chk.generate('MC_Json', 'G_Json.cfg')
    rng.shuffle(docs)
    for i, d in enumerate(docs[:3000] if chk.quick else docs):
        cases.append(('g%d' % i, ['fmt json', 'text ' + hexs(bytes(d)), 'read 0', 'read %d' % (i + 1)]))
    n = 900 if chk.quick else 20000
    for i in range(n):
        k = rng.random()
        lines = ['fmt json']
        if k < .5:
            lines += ['tree'] + jtree(rng, rng.choice([0, 1, 2, 3])) + [rng.choice(['write', 'write', 'fill'])]
        else:
            t = (jblank(rng) + jtext(rng, rng.choice([0, 1, 2, 3])) + jblank(rng)).encode('utf-8', 'surrogatepass')
            if k > .92:
                t = mutate(rng, t)
            lines += ['text ' + hexs(t)]
            if k > .9 and len(t) > 1:
                lines += ['cut %d' % rng.randrange(1, len(t))]
        lines += ['read 0'] + ['read %d' % rng.randint(1, 10**6) for _ in range(2)]
        cases.append(('r%d' % i, lines))
    # deep, long and wide ones
    for i in range(48 if chk.quick else 600):
        k = rng.choice(['deep', 'long', 'wide', 'tree', 'blanks', 'digits'])
        lines = ['fmt json']
        if k == 'deep':
            t = nested(rng, rng.choice([9, 16, 17, 33, 65, 70]))
        elif k == 'long':
            t = rng.choice(['%s', '[1,%s,2]', '{"a":%s,"b":1}']) % (jstring(rng, longtext(rng)[:1100]) if rng.random() < .6 else json.dumps(longtext(rng), ensure_ascii=False))
        elif k == 'wide':
            n = rng.choice([33, 65, 128, 257])
            t = '[' + ','.join(jtext(rng, 0) for _ in range(n)) + ']' if rng.random() < .5 else '{' + ','.join('"m%d":%s' % (j, jtext(rng, 0)) for j in range(n)) + '}'
        elif k == 'blanks':
            b = lambda: rng.choice(' \t\r\n') * rng.choice([10, 130, 1100])
            t = b() + '{' + b() + '"a"' + b() + ':' + b() + '[' + b() + '1' + b() + ',' + b() + '"x"' + b() + ']' + b() + '}' + b()
        elif k == 'digits':
            t = rng.choice(['%s', '[%s]']) % (rng.choice(['', '-']) + rng.choice(['0.', '1.', '123456.']) + ''.join(rng.choice('0123456789') for _ in range(rng.choice([17, 40, 100, 300]))) + rng.choice(['', 'e5', 'E-7', 'e+20']))
        if k == 'tree':
            n = rng.choice([17, 33, 40])
            lines += ['tree', 'arr %d' % (n + 1), 'str ' + hexs(longtext(rng).encode())] + [l for _ in range(n) for l in rng.choice([['bool 1'], ['int 5'], ['str 22'], ['int -70000'], ['opt 0', 'null'], ['real ' + bits(.5)]])] + [rng.choice(['write', 'fill'])]
        else:
            lines += ['text ' + hexs(t.encode('utf-8', 'surrogatepass'))]
        cases.append(('l%s%d' % (k, i), lines + (['read %d' % i] if k == 'long' else ['read 0', 'read %d' % (i + 1)])))
    chk.conform(binary, 'T_Json', 'T_Json.cfg', cases, corrupt=corrupt, corrupt_n=20)
