"""C17: the JSON-WSP description of a service."""
import hashlib, json, os
from vlib import build, hexs, BUILD

MEMBERS = ['a', 'b', 'index', 'type', 'optional', 'A', 'a_b', 'x1', 'name with space', 'quote"', 'back\\slash', 'přehláska', 'params', 'a:b', 'longer_name_than_fits_into_small_strings',
           'def_order', 'tab\tbed', '0']
NAMES = ['a', 'b', 'get', 'set', 'sub', 'params', 'A b', 'q"', 'b\\s', 'ž', '1', 'a/b', 'methods', 'a name that is too long for the small string optimisation of strings', 'x', 'y', 'z']
NUMS = ['int', 'int16_t', 'uint8_t', 'int64_t', 'uint32_t', 'uint64_t', 'float', 'double']


def cstr(s):
    return '"' + ''.join('\\' + c if c in '"\\' else '\\t' if c == '\t' else '\\n' if c == '\n' else c for c in s) + '"'


def bl(s):
    return list(s.encode())


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.types = []      # (C++ name, [(member, type)])

    def type(self, depth=0, member=False):
        r = self.rng
        k = r.random()
        if depth < 3 and k < .45:
            inner = self.type(depth + 1)
            what = r.choice(['vec', 'vec', 'arr', 'map', 'opt'])
            if what == 'opt' and (inner['k'] == 'opt'):
                what = 'vec'
            if what == 'vec' and inner['c'] == 'bool':
                what = 'map'
            c = {'vec': 'std::vector<%s>', 'arr': 'std::array<%s, ' + str(r.randint(1, 4)) + '>', 'map': 'std::map<std::string, %s>', 'opt': 'Optional<%s>'}[what] % inner['c']
            return {'k': {'vec': 'arr', 'arr': 'arr', 'map': 'map', 'opt': 'opt'}[what], 'of': inner, 'c': c}
        if k < .7 and self.types:
            i = r.randrange(len(self.types))
            return {'k': 'obj', 'i': i + 1, 'c': self.types[i][0]}
        if k < .8:
            return {'k': 'str', 'c': 'std::string'}
        if k < .87:
            return {'k': 'bool', 'c': 'bool'}
        return {'k': 'num', 'c': r.choice(NUMS)}

    def plain(self, t):
        if isinstance(t, dict):
            return {k: self.plain(v) for k, v in t.items() if k != 'c'}
        return t

    def params(self):
        return [(n, self.type()) for n in self.rng.sample(MEMBERS, self.rng.choice([0, 1, 1, 2, 3, 5]))]

    def method(self):
        ps = self.params()
        ret = [] if self.rng.random() < .3 else [self.type()]
        spec = {'t': 'm', 'm': {'doc': [], 'rdoc': [], 'ret': [self.plain(t) for t in ret],
                                'params': [{'name': bl(n), 'type': self.plain(t), 'opt': True, 'doc': []} for n, t in ps]}}
        args = ', '.join('%s p%d = name(%s)' % (t['c'], i, cstr(n)) for i, (n, t) in enumerate(ps))
        return spec, args, 'return %s();' % ret[0]['c'] if ret else ''

    def manual_type(self):
        r = self.rng
        s = r.choice(['', '', 'a', 'aa', 'ao']) + r.choice('ifbs')
        t = {'k': {'i': 'num', 'f': 'num', 'b': 'bool', 's': 'str'}[s[-1]]}
        for c in reversed(s[:-1]):
            t = {'k': 'arr' if c == 'a' else 'opt', 'of': t}
        return s, t

    def program(self):
        r = self.rng
        code, pool, puts, ones = [], [], [], []
        for i in range(r.randint(2, 6)):
            ns = r.random() < .2
            name = 'T%d' % i
            members = [(n, self.type()) for n in r.sample(MEMBERS, r.choice([1, 1, 2, 3, 6]))]
            if r.random() < .25:
                members.append(('kids', {'k': 'arr', 'of': {'k': 'obj', 'i': i + 1}, 'c': 'std::vector<%s>' % name}))
            code.append('%sstruct %s : Serialisable<%s> {\n%s};%s' % ('namespace in { ' if ns else '', name, name, ''.join(
                '\t%s m%d = key<%s>;\n' % (t['c'], j, cstr(n)) for j, (n, t) in enumerate(members)), ' }' if ns else ''))
            self.types.append((('in::' if ns else '') + name, members))
        for k in range(1, r.randint(5, 9)):
            spec, args, body = self.method()
            pool.append(spec)
            capture = r.choice(['', '', 'i', 's'])
            code.append('static void put%d(DynamicRpcObject& in, const std::string& n) {\n\tint i = 0; std::string s; (void)i;\n\tin.add(n, RpcLambdaHolder([%s] (%s) { %s%s }));\n}' % (
                len(pool), capture, args, '(void)%s; ' % capture if capture else '', body))
            puts.append(len(pool))
        for k in range(r.randint(1, 3)):
            name, kids, lines = 'O%d' % k, [], []
            for j, n in enumerate(r.sample(NAMES, r.randint(1, 6))):
                spec, args, body = self.method()
                kids.append({'name': bl(n), 'node': spec})
                if r.random() < .5:
                    args = '%s* self' % name + (', ' + args if args else '')
                if r.random() < .3:
                    lines.append('\tstd::string between%d;\n' % j)
                lines.append('\tRpcMember<[] (%s) { %s }> c%d = child<%s>;\n' % (args, body, j, cstr(n)))
            pool.append({'t': 'o', 'kids': kids})
            code.append('struct %s : RpcObject<%s> {\n%s};' % (name, name, ''.join(lines)))
            code.append('static void put%d(DynamicRpcObject& in, const std::string& n) { in.add(n, RpcLambdaHolder(%s())); }' % (len(pool), name))
            code.append('static std::unique_ptr<IRemoteCallable> one%d() { return std::make_unique<%s>(); }' % (len(pool), name))
            puts.append(len(pool))
            ones.append(len(pool))
        for k in range(r.randint(1, 3)):
            kids, made = [], []
            for n in r.sample(NAMES, r.randint(1, 4)):
                params, cps = [], []
                for pn in r.sample(MEMBERS, r.choice([0, 1, 2, 4])):
                    s, t = self.manual_type()
                    opt, doc = r.random() < .4, r.choice(['', 'about it', 'a "quoted"\nremark'])
                    params.append({'name': bl(pn), 'type': t, 'opt': opt, 'doc': bl(doc)})
                    cps.append('{%s, %s, "%s", %s}' % (cstr(pn), cstr(doc), s, 'true' if opt else 'false'))
                s, t = self.manual_type() if r.random() < .7 else ('', None)
                doc, rdoc = r.choice(['', 'does something']), r.choice(['', 'what came out']) if s else ''
                kids.append({'name': bl(n), 'node': {'t': 'm', 'm': {'doc': bl(doc), 'rdoc': bl(rdoc), 'ret': [t] if s else [], 'params': params}}})
                made.append('{%s, %s, {%s}, "%s", %s}' % (cstr(n), cstr(doc), ', '.join(cps), s, cstr(rdoc)))
            pool.append({'t': 'o', 'kids': kids})
            code.append('static std::vector<ManualMethod> manual%d() { return {%s}; }' % (len(pool), ', '.join(made)))
            code.append('static void put%d(DynamicRpcObject& in, const std::string& n) { in.add(n, RpcLambdaHolder(Manual(manual%d()))); }' % (len(pool), len(pool)))
            code.append('static std::unique_ptr<IRemoteCallable> one%d() { return std::make_unique<Manual>(manual%d()); }' % (len(pool), len(pool)))
            puts.append(len(pool))
            ones.append(len(pool))
        code.append('static void put(DynamicRpcObject& in, const std::string& n, int k) {\n%s}' % ''.join('\tif (k == %d) put%d(in, n);\n' % (k, k) for k in puts))
        code.append('static std::unique_ptr<IRemoteCallable> one(int k) {\n%s\treturn nullptr;\n}' % ''.join('\tif (k == %d) return one%d();\n' % (k, k) for k in ones))
        code.append('static std::vector<std::string> typeNames() { return {%s}; }' % ', '.join('std::string(%s().getTypeName())' % c for c, _ in self.types))
        lit = lambda x: '\n'.join('R"~(%s)~"' % t for t in chunks(json.dumps(x)))
        code.append('static const std::string typesJson = %s;' % lit([[{'name': bl(n), 'type': self.plain(t)} for n, t in ms] for _, ms in self.types]))
        code.append('static const std::string poolJson = %s;' % lit(pool))
        self.puts, self.ones = puts, ones
        return '\n'.join(code) + '\n'


def chunks(s, n=8000):
    return [s[i:i + n] for i in range(0, len(s), n)]


def corrupt(events, rng):
    d = [e for e in events if e['e'] == 'described']
    if not d:
        return None
    t = bytes(d[0]['text'])
    k = rng.choice(['number', 'optional', 'order', 'path', 'gone'])
    if k == 'number' and b'"number"' in t[t.index(b'"methods"'):]:
        i = t.rindex(b'"number"')
        d[0]['text'] = list(t[:i] + b'"string"' + t[i + 8:])
    elif k == 'optional' and b'"optional" : true' in t:
        d[0]['text'] = list(t.replace(b'"optional" : true', b'"optional" : false', 1))
    elif k == 'order' and b'"def_order" : 1,' in t:
        d[0]['text'] = list(t.replace(b'"def_order" : 1,', b'"def_order" : 2,', 1))
    elif k == 'gone':
        c = [e for e in events if e['e'] == 'callable'][0]
        if not c['paths']:
            return None
        c['paths'].pop()
    else:
        d[0]['text'] = list(t[:-1])
    return k, events


def cases_for(gen, n, tag):
    r = gen.rng
    cases = []
    for i in range(n):
        lines, live = [], []
        if i < len(gen.ones):
            lines.append('one v0 %d' % gen.ones[i])
            live.append(['v0', None])
        else:
            names = {}
            for j in range(r.choice([1, 1, 2, 3, 5])):
                v = 'v%d' % j
                lines.append('dyn ' + v)
                names[v] = []
                for _ in range(r.choice([0, 1, 2, 3]) if j or r.random() < .3 else r.choice([2, 4])):
                    name = r.choice([x for x in NAMES if x not in names[v]])
                    names[v].append(name)
                    lines.append('put %s %s %d' % (v, hexs(name.encode()), r.choice(gen.puts)))
                while live and r.random() < .6:
                    w = live.pop(r.randrange(len(live)))[0]
                    name = r.choice([x for x in NAMES if x not in names[v]])
                    names[v].append(name)
                    lines.append('add %s %s %s' % (v, hexs(name.encode()), w))
                live.append([v, None])
        for v, _ in live:
            lines.append('describe %s %s %s' % (v, hexs(r.choice([b'', b'http://x/y?z="', 'ž.cz'.encode()])), hexs(r.choice([b'service', b'', b'a "b"\n\x01']))))
        cases.append(('%s.%d' % (tag, i), lines))
    return cases


def run(chk):
    chk.model('MC_Description', 'MC_Description.cfg' if chk.quick else 'MC_Description_deep.cfg')
    chk.model_must_fail('MC_Description', 'MC_Description_flat.cfg')
    chk.model_must_fail('MC_Description', 'MC_Description_dots.cfg')
    programs = []
    for i in range(8 if chk.quick else 60):
        g = Gen(chk.rng)
        code = g.program()
        path = os.path.join(BUILD, 'gen-%s-%d.inc' % (hashlib.sha256(code.encode()).hexdigest()[:16], os.getpid()))
        os.makedirs(BUILD, exist_ok=True)
        with open(path, 'w') as f:
            f.write(code)
        programs.append((g, path))
    for (g, path), binary in zip(programs, chk.pool.map(lambda p: build('describe', opt='-O0', defines=['GENERATED="%s"' % p[1]]), programs)):
        os.unlink(path)
        chk.conform(binary, 'T_Description', 'T_Description.cfg', cases_for(g, 20 if chk.quick else 40, os.path.basename(path)[4:12]), corrupt=corrupt, corrupt_n=4)
        os.unlink(binary)
