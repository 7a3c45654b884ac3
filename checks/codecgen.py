"""Structures of values and texts for the codec harness (struct_io)."""
import struct, json
from vlib import hexs

WIDTHS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
RANGE = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'i32': (-2**31, 2**31 - 1),
         'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**63 - 1), '': (-2**31, 2**31 - 1)}


def integer(rng, lo, hi):
    k = rng.random()
    if k < .25:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, max(lo, -1), 1])
    if k < .6:
        v = rng.randint(-1, 1) * 10 ** rng.randint(0, 19) + rng.randint(-2, 2)
    elif k < .8:
        v = rng.choice([-1, 1]) * 2 ** rng.randint(0, 63) + rng.randint(-1, 1)
    else:
        v = rng.randint(lo, hi)
    return min(hi, max(lo, v))


def bits(d):
    return struct.pack('>d', d).hex()


def real(rng):
    k = rng.random()
    if k < .2:
        return rng.choice([0.0, -0.0, 1.0, -1.0, .1, 1e21, 1e-7, 123456789.125, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308,
                           1e22, 1e23, 9007199254740993.0, 0.3, 1 / 3, 1e15, 1e16, 1e17, 123456.7, -2.5e-5, 1e100])
    if k < .5:
        return round(rng.uniform(-1000, 1000), rng.randint(0, 6))
    if k < .7:
        return float(rng.randint(-10**rng.randint(1, 18), 10**rng.randint(1, 18)))
    while True:
        d = struct.unpack('>d', rng.getrandbits(64).to_bytes(8, 'big'))[0]
        if d == d and abs(d) != float('inf'):
            return d


def char(rng):
    k = rng.random()
    if k < .35:
        return chr(rng.randint(32, 126))
    if k < .6:
        return rng.choice('"\\/\b\f\n\r\t{}[],: &=+%#;?\'<>u0n')
    if k < .7:
        return chr(rng.randint(1, 31))
    if k < .8:
        return chr(rng.randint(0x80, 0x7ff))
    if k < .93:
        return rng.choice(['\u0800', '\uffff', '\ud7ff', '\ue000', '\u20ac', chr(rng.randint(0x800, 0xd7ff))])
    return chr(rng.randint(0x10000, 0x10ffff))


def text(rng, short=False):
    k = rng.random()
    if k < .1:
        return ''
    if k < .12:     # an escaped character, or almost
        parts = ['&', '#', '8364', ';']
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.randrange(4)
            parts[i] = rng.choice(['', 'x23', '023', '%23', '%2338', '26', '%26', '&', '#', '3b', '%3B', ' ', '38', '233', '12345678', parts[i] + 'x'])
        return ''.join(parts) + rng.choice(['', 'x', '&', ';'])
    if k < .14:     # what looks like some escape
        return ''.join(rng.choice(['&', '&', '#', '23', '26', '3b', '%', '%23', '%26', 'x', '38', '8364', ';', '+', ' ', '\u00e9', '\\u', '\\', '"']) for _ in range(rng.randint(1, 8)))
    n = rng.randint(1, 6) if short or k < .8 else rng.choice([15, 40, 100, 255, 256, 300])
    if k > .95:
        return rng.choice('ab"\\') * n
    return ''.join(char(rng) for _ in range(n))


def longtext(rng):
    """Text of a size with which buffers and counters may have problems."""
    n = rng.choice([127, 128, 511, 513, 1023, 1024, 1025, 2049, 4096, 5000])
    k = rng.random()
    if k < .4:
        c = rng.choice(['a', '"', '\\', '\u20ac', ' ', '&', '\n'])
        return c * (n if c in 'a ' else min(n, 1025))
    if k < .7:      # Mostly plain, and so parsed faster by TLC
        return ''.join(rng.choice(['xyz ' * 40, 'q', char(rng)]) for _ in range(n // 40))
    return ''.join(char(rng) for _ in range(min(n, 700)))


def nested(rng, depth):
    """JSON text nested deeply."""
    s = rng.choice(['1', '"x"', '[]', '{}', 'null', '"]}"', '-2.5e3'])
    for _ in range(depth):
        s = rng.choice(['[%s]', '{"a":%s}', '[1,%s]', '{"b":"}","a":%s,"c":[]}', '[%s,"["]', '[{},%s]']) % s
    return s


def jtree(rng, depth, fill=False):
    """A structure for the JSON writer, as lines."""
    k = rng.random()
    if depth > 0 and k < .45 or depth >= 3:
        n = rng.choice([0, 1, 1, 2, 2, 3, 5])
        if k < .2 or (depth >= 3 and k < .5):
            out = ['arr %d' % n]
            for _ in range(n):
                out += jtree(rng, depth - 1, fill)
            return out
        out = ['obj %d' % n]
        for i in range(n):
            out.append('name ' + hexs(text(rng, True)))
            out += jtree(rng, depth - 1, fill)
        return out
    k = rng.random()
    if k < .1:
        return ['null']
    if k < .2:
        return ['bool %d' % rng.randint(0, 1)]
    if k < .45:
        w = rng.choice([''] + WIDTHS)
        return [('int %d %s' % (integer(rng, *RANGE[w if w else 'i64']), w if w else 'i64')).strip()]
    if k < .65:
        return ['real ' + bits(real(rng))]
    if k < .95:
        return ['str ' + hexs(text(rng).encode())]
    if rng.random() < .5:
        return ['opt 0', 'null']
    return ['opt 1'] + leaf_of(rng)


def leaf_of(rng):
    return rng.choice([['bool 1'], ['int 5'], ['str ' + hexs(text(rng, True))], ['real ' + bits(real(rng))]])


# ---- JSON texts as others would write them

def jblank(rng):
    return ''.join(rng.choice(' \t\n\r') for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 5])))


def jstring(rng, s=None):
    s = text(rng, rng.random() < .8) if s is None else s
    out = '"'
    esc = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
    for c in s:
        k = rng.random()
        if c in esc and (c != '/' or k < .5) and k < .7:
            out += esc[c]
        elif c in '"\\' or ord(c) < 32 or k < .2:
            for unit in struct.iter_unpack('>H', c.encode('utf-16-be', 'surrogatepass')):
                h = '%04x' % unit[0]
                out += '\\u' + (h.upper() if rng.random() < .5 else h)
        else:
            out += c
    return out + '"'


def jnumber(rng):
    k = rng.random()
    if k < .4:
        return str(integer(rng, -2**63, 2**63 - 1))
    if k < .6:
        r = repr(real(rng))
        return r.upper() if rng.random() < .5 else r
    out = rng.choice(['', '-']) + rng.choice(['0', str(rng.randint(1, 99999)), str(rng.randint(1, 10**20))])
    frac = rng.random() < .6
    if frac:
        out += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 2, 5, 20])))
    if not frac or rng.random() < .5:
        out += rng.choice('eE') + rng.choice(['', '+', '-']) + str(rng.randint(0, 30))
    return out


def jtext(rng, depth):
    b = lambda: jblank(rng)
    k = rng.random()
    if depth > 0 and k < .5 or depth >= 3:
        n = rng.choice([0, 1, 1, 2, 2, 3])
        if k < .25:
            return '[' + b() + (b() + ',' + b()).join(jtext(rng, depth - 1) for _ in range(n)) + b() + ']'
        return '{' + b() + (b() + ',' + b()).join(jstring(rng, text(rng, True)) + b() + ':' + b() + jtext(rng, depth - 1) for _ in range(n)) + b() + '}'
    k = rng.random()
    if k < .3:
        return rng.choice(['true', 'false', 'null'])
    if k < .6:
        return jnumber(rng)
    return jstring(rng)


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not data:
            break
        i = rng.randrange(len(data))
        k = rng.random()
        if k < .3:
            data[i] = rng.choice(b'"\\{}[],:0-.e+u \n\x00\xff&=%#;')
        elif k < .6:
            del data[i:i + rng.choice([1, 1, 2, 5])]
        elif k < .8:
            data[i:i] = bytes(rng.choice(b'"\\{}[],:0-.e+u &=%#;') for _ in range(rng.choice([1, 2])))
        else:
            data[i:i] = data[rng.randrange(len(data)):][:4]
    return bytes(data)


# ---- structures for the binary format

def f32(rng):
    k = rng.random()
    if k < .2:
        return rng.choice([0.0, -0.0, 1.0, -2.5, 3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45, -1.1754942106924411e-38])
    while True:
        d = struct.unpack('>f', rng.getrandbits(32).to_bytes(4, 'big'))[0]
        if d == d and abs(d) != float('inf'):
            return d


def f16(rng):
    while True:
        d = struct.unpack('>e', rng.getrandbits(16).to_bytes(2, 'big'))[0]
        if d == d and abs(d) != float('inf'):
            return d


def bleaf(rng, exact=True):
    k = rng.random()
    if k < .45:
        w = rng.choice([''] + WIDTHS)
        return [('int %d %s' % (integer(rng, *RANGE[w]), w)).strip()]
    if k < .6:
        w = rng.choice(['f16', 'f32', 'f64']) if exact else 'f64'
        return ['real %s %s' % (bits({'f16': f16, 'f32': f32, 'f64': real}[w](rng)), w)]
    if k < .7:
        return ['bool %d' % rng.randint(0, 1)]
    if k < .75 and exact:
        return ['null']
    n = rng.choice([0, 1, 2, 3, 7, 7, 20, 200])
    return ['str ' + hexs(bytes(rng.randrange(256) for _ in range(n)))]


def btree(rng, depth, arrays=3, exact=True):
    k = rng.random()
    if depth <= 0 or k < .25:
        return bleaf(rng, exact)
    if k < .45 and arrays > 0:
        n = rng.choice([0, 1, 1, 2, 3, 6]) if exact else rng.choice([1, 2, 3])
        out = ['arr %d' % n]
        for _ in range(n):
            out += btree(rng, depth - 1, arrays - 1, exact)
        return out
    if k < .6:
        return ['opt %d' % rng.randint(0, 1)] + btree(rng, depth - 1, arrays, exact)
    n = rng.choice([0, 1, 2, 3, 4]) if exact else rng.choice([1, 2, 3])
    out = ['%s %d' % (rng.choice(['obj', 'kobj', 'kobj']), n)]
    for _ in range(n):
        out.append('name ' + hexs(text(rng, True)))
        out += btree(rng, depth - 1, arrays, exact)
    return out


def bencode(lines, s, at=0):
    """The bytes of a structure (used only to have something to mutate)."""
    l = lines[at].split()
    k = l[0]
    at += 1
    size = lambda n: (n % 256 ** s).to_bytes(s, 'little')
    if k == 'int':
        n = {'8': 1, '16': 2, '32': 4, '64': 8}[(l[2] if len(l) > 2 else 'i32')[1:]]
        return (int(l[1]) % 256 ** n).to_bytes(n, 'little'), at
    if k == 'real':
        d = struct.unpack('>d', bytes.fromhex(l[1]))[0]
        return struct.pack('<' + {'f16': 'e', 'f32': 'f', 'f64': 'd'}[l[2]], d), at
    if k == 'bool':
        return bytes([int(l[1])]), at
    if k == 'null':
        return b'', at
    if k == 'str':
        v = b'' if l[1] == '-' else bytes.fromhex(l[1])
        return size(len(v)) + v, at
    if k == 'opt':
        b, at = bencode(lines, s, at)
        return (b'\1' + b if l[1] == '1' else b'\0'), at
    n = int(l[1])
    out = b'' if k == 'kobj' else size(n)
    for _ in range(n):
        if k != 'arr':
            nm = lines[at].split()[1]
            nm = b'' if nm == '-' else bytes.fromhex(nm)
            at += 1
            if k == 'obj':
                out += size(len(nm)) + nm
        b, at = bencode(lines, s, at)
        out += b
    return out, at


# ---- forms

def ftext(rng):
    k = rng.random()
    if k < .12:
        return rng.choice(['', '-', '12', '-7.5', '1e5', '1e', '.', '5.', '--1', '+5', 'e5', '007', '&#328;', '&#38;', '&#', '&', '#', '%41', 'a+b', '\0',
                           '9223372036854775807', '9223372036854775808', '-9223372036854775808', '\u00ff', '\u0100', '\u07ff', '\u0800', '\U0010ffff'])
    return text(rng, rng.random() < .8)


def fwritten(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    out = ['obj %d' % n]
    for i in range(n):
        out.append('name ' + hexs(ftext(rng).encode() or b'n'))
        k = rng.random()
        if k < .3:
            out.append('int %d i64' % integer(rng, *RANGE['i64']))
        elif k < .5:
            out.append('real ' + bits(real(rng)))
        elif k < .6:
            out.append('bool 1')
        elif k < .7:
            out += ['opt 0', 'null']
        elif k < .75:
            out += ['opt 1', rng.choice(['int 5', 'str 6162'])]
        else:
            out.append('str ' + hexs(ftext(rng).encode()))
    return out


def fescape(rng, s):
    out = b''
    for c in s:
        o = ord(c)
        if c == ' ' and rng.random() < .7:
            out += b'+'
        elif o > 255:
            out += b'%26%23' + str(o).encode() + rng.choice([b'%3b', b'%3B'])
        elif c.isalnum() and o < 128 and rng.random() < .9 or c in '.*-_' and rng.random() < .8 or c in '?/:@!$\'(),;~' and rng.random() < .5:
            out += c.encode()
        else:
            h = '%%%02x' % o
            out += (h.upper() if rng.random() < .5 else h).encode()
    return out


def fread(rng):
    n = rng.choice([1, 1, 2, 3, 5])
    fields = []
    for i in range(n):
        f = fescape(rng, ftext(rng) or 'n')
        if rng.random() < .93:
            v = fescape(rng, str(rng.choice([jnumber(rng), ftext(rng)])))
            f += b'=' + v
        fields.append(f)
    return b'&'.join(fields)
