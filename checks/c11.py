"""C11: URL-encoded forms."""
from checks.codecgen import *
from checks.c09 import corrupt as corrupt_generic
from vlib import build


def corrupt(events, rng):
    if any(e['e'] == 'opt' for e in events):
        return None
    c = corrupt_generic(events, rng)
    return c


def run(chk):
    chk.model('MC_Form', 'MC_Form.cfg' if chk.quick else 'MC_Form_deep.cfg')
    chk.model_must_fail('MC_Form', 'MC_Form_plainref.cfg')
    chk.model_must_fail('MC_Form', 'MC_Form_plus.cfg')
    binary = build('struct_io')
    rng = chk.rng
    cases = []
    strings = chk.generate('MC_Form', 'G_Form.cfg')
    rng.shuffle(strings)
    if chk.quick:
        strings = strings[:6000]
    for i in range(0, len(strings), 30):
        part = strings[i:i + 30]
        lines = ['fmt form', 'tree', 'obj %d' % len(part)]
        for k, s in enumerate(part):
            lines += ['name ' + (hexs(bytes(part[-1 - k])) if i % 4 == 0 else hexs('n%d' % k)), 'str ' + hexs(bytes(s))]
        cases.append(('g%d' % i, lines + ['write', 'read 0']))
    for i in range(1200 if chk.quick else 25000):
        lines = ['fmt form']
        if rng.random() < .5:
            lines += ['tree'] + fwritten(rng) + ['write']
        else:
            t = fread(rng)
            k = rng.random()
            if k > .9:
                t = mutate(rng, t)
            lines += ['text ' + hexs(t)]
            if k > .85 and len(t) > 1:
                lines += ['cut %d' % rng.randrange(1, len(t))]
        lines += ['read 0'] + ['read %d' % rng.randint(1, 10**6) for _ in range(2)]
        cases.append(('r%d' % i, lines))
    # long texts and many fields
    for i in range(40 if chk.quick else 400):
        lines = ['fmt form']
        n = rng.choice([1, 2, 40, 130])
        v = lambda: longtext(rng)[:rng.choice([130, 520, 1030])] if n < 3 else text(rng, True)
        if rng.random() < .5:
            lines += ['tree', 'obj %d' % n]
            for k in range(n):
                lines += ['name ' + hexs('n%d' % k), 'str ' + hexs(v().encode())]
            lines.append('write')
        else:
            lines.append('text ' + hexs(b'&'.join(b'n%d=' % k + fescape(rng, v()) for k in range(n))))
        cases.append(('l%d' % i, lines + ['read 0', 'read %d' % (i + 1), 'read %d' % (i + 1001)]))
    chk.conform(binary, 'T_Form', 'T_Form.cfg', cases, corrupt=corrupt, corrupt_n=16)
