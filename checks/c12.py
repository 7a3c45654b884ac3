"""C12: what reading a message does to an object."""
from checks.codecgen import *
from vlib import build

INT = lambda w: ('int', w)
STR, BOOL = ('str',), ('bool',)
INNER = ('obj', [('x', INT('i32')), ('t', STR), ('l', ('vec', INT('i16')))])
BIG = ('obj', [('a', INT('i8')), ('ab', INT('u8')), ('c', INT('i16')), ('d', INT('u16')), ('e', INT('i32')), ('f', INT('u32')), ('g', INT('i64')), ('h', INT('u64')),
               ('i', ('real', 'f64')), ('j', ('real', 'f32')), ('k', BOOL), ('kk', BOOL), ('s', STR), ('in', INNER), ('v', ('vec', INT('i32'))), ('vs', ('vec', STR)),
               ('vo', ('vec', INNER)), ('vv', ('vec', ('vec', INT('i32')))), ('ar', ('arr', 3, INT('i32'))), ('ao', ('arr', 2, INNER)), ('m', ('map', INT('i32'))),
               ('mo', ('map', INNER)), ('ms', ('map', STR)), ('mv', ('map', ('vec', INT('i32')))), ('o', ('opt', INT('i32'))), ('oo', ('opt', INNER)), ('os', ('opt', STR)),
               ('u', ('opt', INNER)), ('vp', ('vec', ('opt', INT('i32')))), ('w', INT('i16')), ('la', BOOL)])
KEYS = ['k', 'kk', 'l', '', 'key with "quotes"', 'a']


def key(rng):
    return rng.choice(KEYS) if rng.random() < .85 else text(rng, True)


def value(rng, s):
    """JSON text of a value of the type."""
    k = s[0]
    b = lambda: jblank(rng) if rng.random() < .3 else ''
    if k == 'int':
        return str(integer(rng, *RANGE[s[1]]))
    if k == 'real':
        d = f32(rng) if s[1] == 'f32' else real(rng)
        return repr(d)
    if k == 'str':
        return jstring(rng, text(rng, True))
    if k == 'bool':
        return rng.choice(['true', 'false'])
    if k == 'opt':
        return 'null' if rng.random() < .35 else value(rng, s[1])
    if k in ('vec', 'arr'):
        n = rng.choice([0, 1, 2, 3, 3, 4, 6]) if k == 'vec' else s[1] + rng.choice([-1, 0, 0, 0, 1, 2])
        return '[' + b() + (b() + ',' + b()).join(value(rng, s[-1]) for _ in range(n)) + b() + ']'
    if k == 'map':
        return '{' + b() + (b() + ',' + b()).join(jstring(rng, key(rng)) + b() + ':' + b() + value(rng, s[1]) for _ in range(rng.choice([0, 1, 1, 2, 3]))) + b() + '}'
    return objtext(rng, s)


def objtext(rng, s, most=None):
    names = list(s[1])
    r = rng.random()
    if r < .5:
        names = rng.sample(names, rng.randint(0, min(len(names), most or 5)))
    elif r < .75:
        rng.shuffle(names)
    elif r < .85:
        names = [rng.choice(names) for _ in range(rng.randint(1, most or 5))]
    b = lambda: jblank(rng) if rng.random() < .3 else ''
    parts = [jstring(rng, n) + b() + ':' + b() + value(rng, t) for n, t in names]
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        n = rng.choice(['zz', 'A', 'aa', 'inn', 'x', 'unknown member', '', 'mm', 'abc', 'ka'])
        if n not in [q for q, _ in s[1]]:
            parts.insert(rng.randint(0, len(parts)), jstring(rng, n) + b() + ':' + b() + jtext(rng, rng.choice([0, 1, 2])))
    return '{' + b() + (b() + ',' + b()).join(parts) + b() + '}'


def encode(rng, s):
    """Binary message of the type, maps with their keys in order."""
    k = s[0]
    if k == 'int':
        w = s[1]
        return (integer(rng, *RANGE[w]) % 2**64).to_bytes(8, 'little')[:int(w[1:]) // 8]
    if k == 'real':
        return struct.pack('<f', f32(rng)) if s[1] == 'f32' else struct.pack('<d', real(rng))
    st = lambda t: struct.pack('<H', len(t)) + t
    if k == 'str':
        return st(text(rng, True).encode())
    if k == 'bool':
        return bytes([rng.randint(0, 1)])
    if k == 'opt':
        return b'\0' if rng.random() < .4 else b'\1' + encode(rng, s[1])
    if k in ('vec', 'arr'):
        n = s[1] if k == 'arr' else rng.choice([0, 1, 2, 3, 5])
        return struct.pack('<H', n) + b''.join(encode(rng, s[-1]) for _ in range(n))
    if k == 'map':
        ks = sorted({key(rng).encode() for _ in range(rng.choice([0, 1, 2, 3]))})
        return struct.pack('<H', len(ks)) + b''.join(st(x) + encode(rng, s[1]) for x in ks)
    return b''.join(encode(rng, t) for _, t in s[1])


def form(rng):
    fields = []
    names = [('n', 'i'), ('nn', 'l'), ('r', 'r'), ('s', 's'), ('t', 's'), ('k', 'b'), ('o', 'oi'), ('os', 's')]
    rng.shuffle(names)
    names = names[:rng.randint(0, 8)]
    if rng.random() < .2 and names:
        names.append(rng.choice(names))
    for _ in range(rng.choice([0, 0, 1])):
        names.insert(rng.randint(0, len(names)), (rng.choice(['x', 'nnn', 'sS', 'N', 'other name']), 's'))
    for n, t in names:
        v = {'i': lambda: str(integer(rng, *RANGE['i32'])), 'l': lambda: str(integer(rng, *RANGE['i64'])), 'r': lambda: repr(real(rng)), 'b': lambda: 'true',
             'oi': lambda: '' if rng.random() < .4 else str(integer(rng, *RANGE['i32'])), 's': lambda: None}[t]()
        w = fescape(rng, text(rng, True) if v is None else v)
        fields.append(fescape(rng, n) + b'=' + w)
    return b'&'.join(fields)


def corrupt(events, rng):
    idx = [i for i, e in enumerate(events) if e['e'] in ('json', 'form', 'bin')]
    if not idx:
        return None
    e = events[rng.choice(idx)]
    m = rng.choice(e['v']['v'])[1]
    what = 'contents differ'
    if m['t'] == 'int':
        m['v'], m['le'] = [49, 50, 49], [121] + [0] * 7
    elif m['t'] == 'bool':
        m['v'] = not m['v']
    elif m['t'] == 'str':
        m['v'] = m['v'] + [66]
    elif m['t'] == 'arr' and m['v']:
        m['v'].pop()
    elif m['t'] == 'null':
        m.update({'t': 'int', 'v': [48], 'le': [0] * 8})
    else:
        e['good'] = False
        what = 'failed'
    return what, events


def run(chk):
    chk.model('MC_Objects', 'MC_Objects.cfg' if chk.quick else 'MC_Objects_deep.cfg', workers=2 if chk.quick else 6, timeout=3000)
    chk.model_must_fail('MC_Objects', 'MC_Objects_merge.cfg')
    binary = build('objects')
    rng = chk.rng
    cases = []
    for i in range(900 if chk.quick else 16000):
        k = rng.random()
        if k < .2:
            lines = ['class flat']
            for _ in range(rng.randint(2, 8)):
                lines.append(rng.choice(['wform', 'form ' + hexs(form(rng)), 'form ' + hexs(form(rng))]))
        else:
            kind, s = ('inner', INNER) if k < .4 else ('big', BIG)
            lines = ['class ' + kind]
            kept = False
            for _ in range(rng.randint(2, 8)):
                r = rng.random()
                if r < .72:
                    lines.append('json ' + hexs(objtext(rng, s)))
                elif r < .8:
                    lines.append('wjson')
                elif r < .88:
                    lines.append('wbin')
                    kept = True
                elif r < .94 and kept:
                    lines.append('rbin')
                else:
                    lines.append('bin ' + hexs(encode(rng, s)))
        cases.append(('r%d' % i, lines))
    # long lists and texts, many keys
    for i in range(24 if chk.quick else 300):
        lines = ['class big']
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([17, 33, 65, 130])
            parts = []
            for name in rng.sample(['v', 'vs', 'vo', 'vv', 'm', 'mo', 'ms', 'vp'], 2) + ['s']:
                s = dict(BIG[1])[name]
                if name == 's':
                    v = json.dumps(longtext(rng)[:2000], ensure_ascii=False)
                elif s[0] == 'map':
                    v = '{' + ','.join('"%s%d":%s' % (rng.choice(['k', 'key ', 'l']), j, value(rng, s[1])) for j in range(n)) + '}'
                else:
                    v = '[' + ','.join(value(rng, s[1]) for _ in range(n)) + ']'
                parts.append('"%s":%s' % (name, v))
            rng.shuffle(parts)
            lines.append('json ' + hexs(('{' + ','.join(parts) + '}').encode('utf-8', 'surrogatepass')))
            lines += [rng.choice(['wjson', 'wbin', 'json ' + hexs(objtext(rng, BIG))])]
            lines += ['rbin'] * (lines[-1] == 'wbin')
        cases.append(('l%d' % i, lines))
    chk.conform(binary, 'T_Objects', 'T_Objects.cfg', cases, corrupt=corrupt, corrupt_n=16)
