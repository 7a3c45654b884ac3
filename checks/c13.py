"""C13: output buffers deliver exactly what was appended."""


def corrupt(events, rng):
    k = rng.choice(['view', 'size', 'chunk', 'add'])
    c = [e for e in events if e['e'] == k and (k == 'size' or e.get('b'))]
    if not c:
        return None
    e = rng.choice(c)
    if k == 'size':
        e['n'] += 1
    elif k == 'view':
        e['b'][-1] ^= 1
    elif k == 'chunk':
        e['b'] = e['b'][:-1]
    else:
        if not any(x['e'] == 'chunk' for x in events) or events[1].get('kind') != 'streaming':
            return None
        e['b'][0] ^= 1
    return k, events


def run(chk):
    from vlib import build
    chk.model('OutBuf', 'MC_OutBuf.cfg')
    chk.model('OutBufImpl', 'MC_OutBufImpl.cfg', workers=3)
    binary = build('out_buf')
    rng = chk.rng

    def data(n):
        return bytes(rng.randint(1, 255) for _ in range(n)).hex() or '-'

    cases = []
    hist = chk.generate('G_OutBuf', 'G_OutBuf.cfg')
    for i, h in enumerate(hist):
        for kind in ('expanding', 'expandingv', 'fixed', 'streaming'):
            if kind == 'streaming' and ('clear' in h or 'view' in h) or kind != 'streaming' and 'flush' in h:
                continue
            cap = rng.choice([1, 2, 3, 5, 8])
            lines = ['new %s %d' % (kind, cap)]
            for op in h:
                w = op.split()
                if len(w) == 1:
                    lines.append(op)
                else:
                    n = {'1': 1, 'c-1': cap - 1, 'c': cap, 'c+1': cap + 1, '2c': 2 * cap, '3c': 3 * cap, '0': 0}[w[1]]
                    lines.append('%s %s' % (w[0], data(n)))
            lines += ['size', 'view' if kind != 'streaming' else 'size', 'del']
            cases.append(('%s%d' % (kind[0] + kind[-1], i), lines))
    for i in range(1800 if chk.quick else 15000):
        kind = rng.choice(['expanding', 'expandingv', 'fixed', 'streaming'])
        big = rng.random() < .1
        cap = rng.choice([100, 1024] if big else [1, 2, 3, 5, 8, 16])
        lines = ['new %s %d' % (kind, cap)]
        for _ in range(rng.randint(1, 5 if big else 25)):
            r = rng.random()
            if r < .75:
                n = rng.choice([0, 1, 2, cap - 1, cap, cap + 1, 2 * cap, 3 * cap - 1, 3 * cap, 3 * cap + 1, 6 * cap + 1, rng.randint(0, 4 * cap)])
                op = rng.choice(['ch', 'sv', 'sp', 'cs'])
                if op == 'ch' and n > 40 and not rng.random() < .2:
                    op = 'sv'
                lines.append('%s %s' % (op, data(max(0, n))))
            elif r < .85:
                lines.append('size')
            elif kind == 'streaming':
                lines.append('flush')
            elif r < .95:
                lines.append('view')
            else:
                lines.append('clear')
        if kind != 'streaming':
            lines.append('view')
        lines += ['size', 'del']
        cases.append(('r%d' % i, lines))
    chk.conform(binary, 'T_OutBuf', 'T_OutBuf.cfg', cases, corrupt=corrupt)
