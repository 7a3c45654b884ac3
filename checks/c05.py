"""C05: responses and the requests they belong to."""
from vlib import build, hexs

PROTOS = ['json', 'form', 'plain', 'bin8', 'bin16', 'bin32', 'be16', 'be32']
IN_ORDER = ('json', 'form', 'plain')
WAYS = ['net', 'mem', 'probe']


def body(rng, proto):
    most = {'bin8': 200}.get(proto, 6000)
    n = min(most, rng.choice([0, 0, 1, 2, 5, 20, 100, 200, 700] + [2040, 2048, 2500, 5000] * (rng.random() < .06)))
    if proto == 'plain' and rng.random() < .3:
        return (b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc' + bytes(rng.randrange(256) for _ in range(n % 50)))[:max(n, 10)]
    if proto == 'json':
        return bytes(rng.choice(b'abcxyz {}[]:,"\\\n019') for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n)) if proto in ('plain',) else bytes(rng.choice(b'abcdefgh') for _ in range(n))


def kind(rng, proto):
    if proto in ('form', 'plain'):
        return rng.choice(['ok', 'ok', 'ok', 'error'])
    if proto == 'json':
        return rng.choice(['ok', 'ok', 'ok', 'ok', 'error', 'odd'])
    return rng.choice(['ok'] * 5 + ['odd'])


def case(rng, i, tls=False):
    proto, way = rng.choice(PROTOS), 'net' if tls else rng.choice(WAYS)
    lines = ['proto %s %s' % (proto, way)]
    sent, waiting, uncollected = 0, [], []
    for _ in range(rng.choice([6, 15, 40, 80])):
        r = rng.random()
        if r < .2:
            for _ in range(rng.choice([1, 1, 2, 5])):
                lines.append('request')
                sent += 1
                waiting.append(sent)
                uncollected.append(sent)
        elif r < .45 and waiting:
            t = waiting.pop(0 if proto in IN_ORDER or rng.random() < .4 else rng.randrange(len(waiting)))
            lines.append('respond %d %s %s %d' % (t, kind(rng, proto), hexs(body(rng, proto)), rng.randrange(64)))
        elif r < .65:
            lines.append(rng.choice(['half', 'half', 'arrive %d' % rng.choice([1, 3, 10, 50, 100, 1000, 100000])]))
        elif r < .8 and uncollected:
            lines += ['tease'] * (tls and rng.random() < .4) + ['poll %d' % rng.choice(uncollected)]
        elif r < .95 and uncollected:
            done = [t for t in uncollected if t not in waiting]
            t = rng.choice(done or uncollected)
            lines.append('get %d %d' % (t, rng.choice([1 if way != 'net' else 7, 20, 60, 100, 1000, 100000])))
            if done:
                uncollected.remove(t)
    ending = rng.random()
    if ending < .3:
        lines.append('close')
        if rng.random() < .5:
            for _ in range(rng.choice([1, 2, 3])):
                lines.append('request')
                sent += 1
                uncollected.append(sent)
        if rng.random() < .6:
            lines.append('gone')
            if rng.random() < .3:
                lines.append('get %d 100' % rng.choice(uncollected or [1]))
            for _ in range(rng.choice([1, 2, 3])):
                lines.append('request')
                sent += 1
                uncollected.append(sent)
    elif ending < .5:
        lines.append('confuse %d' % rng.randrange(32))
        for t in waiting[:2]:
            lines.append('respond %d ok %s 0' % (t, hexs(body(rng, proto))))
        if rng.random() < .5:
            lines.append('arrive 100000')
    for t in rng.sample(uncollected, len(uncollected)):
        lines.append(rng.choice(['get %d 100', 'get %d 30', 'poll %d']) % t)
    return ('t%d' if tls else 'r%d') % i, lines


def corrupt(events, rng):
    at = [i for i, e in enumerate(events) if e['e'] in ('got', 'polled', 'offer')]
    if not at:
        return None
    e = events[rng.choice(at)]
    if e['e'] == 'polled':
        e['yes'] = not e['yes']
    elif e['e'] == 'offer':
        if e['r'] == 'ok':
            e['s'] += 1
        else:
            e['r'] = 'ok'
    elif e['ok'] and rng.random() < .5:
        e['b'] = e['b'][:-1] if e['b'] else [1]
    else:
        e['ok'] = not e['ok']
        e['b'] = [255, 254]
    return e['e'] + ' changed', events


def run(chk):
    chk.model('MC_Client', 'MC_Client.cfg' if chk.quick else 'MC_Client_deep.cfg')
    for bug in ('readon', 'noleft', 'forget'):
        chk.model_must_fail('MC_Client', 'MC_Client_%s.cfg' % bug)
    binary = build('clients')
    rng = chk.rng
    cases = []
    # every short history, with every protocol and way in turn
    histories = chk.generate('G_Client', 'G_Client.cfg' if chk.quick else 'G_Client_deep.cfg')
    rng.shuffle(histories)
    ordered = [h for h in histories if (lambda r: r == list(range(1, len(r) + 1)))([o[1] for o in h if o[0] == 'respond'])]
    ordered_set = set(map(str, ordered))
    others = [h for h in histories if str(h) not in ordered_set]
    combos = [(p, w) for p in PROTOS for w in WAYS]
    any_order = [c for c in combos if c[0] not in IN_ORDER]
    each = 40
    k = 0
    for group, ways in ((ordered, combos), (others, any_order)):
        for i in range(0, len(group), each):
            proto, way = ways[k % len(ways)]
            lines = []
            for h in group[i:i + each]:
                lines += ['new'] * bool(lines) + ['proto %s %s' % (proto, way)]
                for op in h:
                    if op[0] == 'respond':
                        lines.append('respond %d %s %s %d' % (op[1], kind(rng, proto), hexs(body(rng, proto)[:150]), rng.randrange(64)))
                    elif op[0] == 'get':
                        lines.append('get %d %d' % (op[1], rng.choice([10, 40, 100000])))
                    else:
                        lines.append(' '.join(str(x) for x in op))
            cases.append(('m%d' % k, lines))
            k += 1
    # many requests waiting, large responses
    for i in range(48 if chk.quick else 400):
        proto, way = rng.choice(PROTOS), rng.choice(WAYS)
        n = rng.choice([3, 17, 33, 70, 130])
        lines, order = ['proto %s %s' % (proto, way)] + ['request'] * n, list(range(1, n + 1))
        if proto not in IN_ORDER:
            rng.shuffle(order)
        for t in order:
            big = rng.choice([0, 9000, 20000, 66000]) if n == 3 and proto != 'bin8' and way != 'probe' else 0
            lines.append('respond %d ok %s 0' % (t, hexs(b'x' * min(big, 60000 if proto.endswith('16') else big) or body(rng, proto)[:20])))
            if rng.random() < .05:
                lines.append('arrive %d' % rng.choice([10, 1000, 100000]))
        lines += [rng.choice(['get %d 100000', 'get %d 100000', 'poll %d']) % t for t in rng.sample(order, n)]
        cases.append(('l%d' % i, lines))
    for i in range(1500 if chk.quick else 20000):
        cases.append(case(rng, i))
    chk.conform(binary, 'T_Clients', 'T_Clients.cfg', cases, corrupt=corrupt, corrupt_n=24, case_timeout=8)
    # the client that encrypts
    tls = build('clients', defines=['WITH_TLS'], libs=['-lssl', '-lcrypto'])
    chk.conform(tls, 'T_Clients', 'T_Clients.cfg', [case(rng, i, True) for i in range(400 if chk.quick else 6000)], corrupt=corrupt, corrupt_n=8, case_timeout=8)
