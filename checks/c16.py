"""C16: places, paths and clients in trees of service objects."""
from vlib import build, hexs

POOL = [b'a', b'b', b'ab', b'get', b'set', b'plain', b'A', b'a b', b'0', b'1', b'a:b', b'a.b', b'a/b', b'\xc4\x8d', b'"', b'a\\', b'result',
        b'a name that is certainly too long for the small string optimisation', b'aa', b'a-b', b'a/b.c:d', b'x' * 200]


def corrupt(events, rng):
    idx = [i for i, e in enumerate(events) if e['e'] == 'walk' and e['got'] or e['e'] in ('local', 'sent', 'serve')]
    if not idx:
        return None
    e = events[rng.choice(idx)]
    if e['e'] == 'walk':
        g = rng.choice(e['got'])
        k = rng.choice(['path', 'same', 'ci', 'gone'])
        if k == 'path':
            g['path'] = g['path'] + [97]
        elif k == 'same':
            g['same'] = False
        elif k == 'ci':
            g['ci'][0] += 1
        else:
            e['got'].remove(g)
        return 'walk ' + k, events
    if e['e'] == 'sent':
        e['path'] = e['path'][:-1] if e['path'] else [97]
        return 'sent to another path', events
    e['res'] += 1
    return e['e'] + ' result', events


class Program:
    """Makes random programs that only do what is allowed."""

    def __init__(self, rng, sep):
        self.rng, self.sep, self.lines = rng, sep, []
        self.vars = {}          # name -> ['leaf', id] ['stat'] ['dyn', {name: kind}]
        self.borrowed = {}      # leaf variable -> True
        self.count = 0
        self.names = [n for n in POOL if sep.encode() not in n and not n.startswith(b':') and not n.endswith(b':')]

    def new(self, kind=None):
        r = self.rng
        v = 'v%d' % self.count
        self.count += 1
        kind = kind or r.choice(['leaf', 'leaf', 'stat', 'dyn', 'dyn'])
        self.vars[v] = [kind, {}]
        self.lines.append({'leaf': 'leaf %s %d %s' % (v, self.count, r.choice(['small', 'full', 'mid', 'big', 'text', 'shared'])),
                           'stat': 'stat %s %d' % (v, r.randint(0, 999)), 'dyn': 'dyn ' + v}[kind])
        return v

    def of(self, *kinds):
        return [v for v in self.vars if self.vars[v][0] in kinds]

    def free(self, *kinds):
        return [v for v in self.of(*kinds) if v not in self.borrowed]

    def paths(self, v):
        """Paths to the nodes under v as sequences of names with the kinds of the nodes."""
        kind, kids = self.vars[v] if isinstance(v, str) else v
        if kind == 'stat':
            return [([n], 'get' if n == b'get' else 'm') for n in (b'get', b'set', b'plain')]
        res = []
        for n, k in kids.items():
            res.append(([n], k[0]))
            res += [([n] + p, kk) for p, kk in self.paths(k)]
        return res

    def step(self):
        r = self.rng
        k = r.random()
        if k < .2 or not self.vars:
            return self.new()
        if k < .45 and self.of('dyn'):
            v = r.choice(self.of('dyn'))
            others = [w for w in self.free('leaf', 'stat', 'dyn') if w != v]
            names = [n for n in self.names if n not in self.vars[v][1]]
            if not others or not names:
                return
            w, name = r.choice(others), r.choice(names)
            if self.vars[w][0] == 'leaf' and r.random() < .4:
                self.borrowed[w] = True
                self.vars[v][1][name] = ['leaf', {}]
                self.lines.append('borrow %s %s %s' % (v, hexs(name), w))
            else:
                self.vars[v][1][name] = self.vars.pop(w)
                self.lines.append('add %s %s %s' % (v, hexs(name), w))
        elif k < .53:
            v = self.free('leaf', 'stat', 'dyn')
            if v:
                v, w = r.choice(v), 'v%d' % self.count
                self.count += 1
                self.vars[w] = self.vars.pop(v)
                self.lines.append('move %s %s' % (v, w))
        elif k < .6:
            v = self.of('stat')
            if v:
                if len(v) > 1 and r.random() < .5:
                    a, b = r.sample(v, 2)
                    self.lines.append('assign %s %s' % (a, b))
                else:
                    w = 'v%d' % self.count
                    self.count += 1
                    self.vars[w] = ['stat', {}]
                    self.lines.append('copy %s %s' % (r.choice(v), w))
        elif k < .7:
            v = self.free('leaf', 'stat', 'dyn')
            if v:
                self.lines.append('client %s %d' % (r.choice(v), r.randint(1, 3)))
        elif k < .8:
            self.find(r.choice(list(self.vars)))
        elif k < .9:
            v = r.choice(list(self.vars))
            p = self.paths(v)
            path = r.choice(p)[0] if p and r.random() < .9 else r.choice([[], [b'nowhere']])
            self.lines.append(' '.join(['serve', v, self.sep, str(r.randint(0, 99))] + [hexs(n) for n in path]))
        else:
            v = self.of('leaf', 'stat')
            if v:
                self.call(r.choice(v))

    def call(self, v):
        r = self.rng
        self.lines.append('call %s %d %s %s' % (v, r.randint(0, 99), self.sep, '' if self.vars[v][0] == 'leaf' else r.choice(['get', 'set', 'plain'])))

    def find(self, v):
        r = self.rng
        sep = self.sep.encode()
        p = self.paths(v)
        path = list(r.choice(p)[0]) if p else []
        k = r.random()
        if k < .3:
            path.append(r.choice(self.names))
        elif k < .5 and path:
            path[r.randrange(len(path))] = r.choice(self.names)
        elif k < .6 and path:
            path.pop()
        text = sep.join(path)
        if k > .6 and text:
            i = r.randrange(len(text) + 1)
            text = r.choice([text[:i] + sep + text[i:], text[:i] + text[i + 1:], text + sep, sep + text, text[:i] + b':' + text[i:], text + text, text[:i]])
        self.lines.append('find %s %s %s' % (v, hexs(text), self.sep))

    def done(self):
        for v in self.vars:
            self.lines.append('walk %s %s' % (v, self.sep))
            if self.vars[v][0] != 'dyn':
                self.call(v)
        return self.lines


def run(chk):
    chk.model('MC_Tree', 'MC_Tree.cfg')
    chk.model('MC_Tree', 'MC_Tree_colons.cfg')
    if not chk.quick:
        chk.model('MC_Tree', 'MC_Tree_deep.cfg')
    chk.model_must_fail('MC_Tree', 'MC_Tree_sepnames.cfg')
    binary = build('tree')
    rng = chk.rng
    cases = []
    for i in range(2200 if chk.quick else 20000):
        p = Program(rng, rng.choice(['.', '.', '/', '::']))
        for _ in range(rng.choice([5, 15, 30, 60])):
            p.step()
            if rng.random() < .1 and p.vars:
                p.lines.append('walk %s %s' % (rng.choice(list(p.vars)), p.sep))
        cases.append(('r%d' % i, p.done()))
    # clients reached through borrowed functions, deep chains and wide objects
    for i in range(60 if chk.quick else 600):
        p = Program(rng, rng.choice(['.', '/', '::']))
        leafs = [p.new('leaf') for _ in range(rng.randint(1, 3))]
        v = p.new('dyn')
        for w in leafs:
            name = rng.choice([n for n in p.names if n not in p.vars[v][1]])
            p.borrowed[w] = True
            p.vars[v][1][name] = ['leaf', {}]
            p.lines.append('borrow %s %s %s' % (v, hexs(name), w))
        for _ in range(rng.randint(0, 5)):
            w = p.new('dyn')
            for _ in range(rng.randint(0, 12)):
                x = p.new('leaf')
                name = rng.choice([n for n in p.names if n not in p.vars[w][1]])
                p.vars[w][1][name] = p.vars.pop(x)
                p.lines.append('add %s %s %s' % (w, hexs(name), x))
            name = rng.choice([n for n in p.names if n not in p.vars[w][1]])
            p.vars[w][1][name] = p.vars.pop(v)
            p.lines.append('add %s %s %s' % (w, hexs(name), v))
            v = w
            if rng.random() < .3:
                p.call(rng.choice(leafs))
        p.lines.append('client %s %d' % (v, rng.randint(1, 3)))
        for w in leafs:
            p.call(w)
        p.lines.append('client %s %d' % (v, rng.randint(1, 3)))
        cases.append(('b%d' % i, p.done()))
    for i in range(16 if chk.quick else 100):
        p = Program(rng, rng.choice(['.', '/', '::']))
        names = [b'n%d' % j for j in range(130)]
        rng.shuffle(names)
        v = p.new('dyn')
        for name in names[:rng.choice([20, 65, 130])]:
            w = p.new(rng.choice(['leaf', 'leaf', 'leaf', 'stat']))
            p.vars[v][1][name] = p.vars.pop(w)
            p.lines.append('add %s %s %s' % (v, hexs(name), w))
        for name in rng.sample(names, rng.choice([3, 10, 20])):
            w = p.new('dyn')
            p.vars[w][1][name] = p.vars.pop(v)
            p.lines.append('add %s %s %s' % (w, hexs(name), v))
            v = w
        p.lines.append('client %s %d' % (v, rng.randint(1, 3)))
        for _ in range(6):
            p.find(v)
        cases.append(('l%d' % i, p.done()))
    chk.conform(binary, 'T_Tree', 'T_Tree.cfg', cases, corrupt=corrupt, corrupt_n=25)
