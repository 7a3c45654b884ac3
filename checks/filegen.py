"""File trees, pages and request paths for the checks of the file servers."""
import os, shutil, tempfile
from vlib import hexs

NAMES = ['index.html', 'index.html', 'a.html', 'b.js', 'style.css', 'data.json', 'x.JPG', 'y.Png', 'noext', 'Makefile', 'a.tar.gz', 'x.', 'UP.HTML', 'doc.unknown', 'with space.txt', '%2e%2e', '%20', 'a&b=c.txt', 'q?x.txt',
         '\u00fcn\u00ef.txt', '\u00fcn\u00ef.\u00e9xt', 'x\\y.txt', 'a..b', 'c..', 'n' * 200 + '.svg', '~', '-', 'a:b', 'x.ico', 'i.gif', 'i.jpeg', 'f.ttf', 'p.xml', 'p.bmp', '*', 'nul', 'secret', 'etc', 'passwd']
HIDDEN = ['.hidden', '.htaccess', '..x', '...', '.x.html']
DIRS = ['', '', '', 'd/', 'd/e/', 'd.e/', 'index.html.d/', 'c../', '\u00fc/', 'a b/', 'etc/', '.git/']


def contents(rng):
    n = rng.choice([0, 1, 2, 5, 20, 60, 60, 200, rng.randint(0, 300)])
    if rng.random() < .06:
        n = rng.choice([1023, 1024, 1025, 2500, 4095, 4096, 4097, 8192, 9000] + [20000, 65536, 70000] * (rng.random() < .1))
    k = rng.random()
    if k < .3:
        return bytes(rng.choice(b' \t\r\n\x00ab') for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def tree(rng, n):
    """The paths of some files, none of which is a directory of another."""
    out = []
    for _ in range(n):
        p = rng.choice(DIRS) + (rng.choice(HIDDEN) if rng.random() < .12 else rng.choice(NAMES))
        if p not in out and not any(o.startswith(p + '/') or p.startswith(o + '/') for o in out):
            out.append(p)
    return out


def twist(rng, path):
    """A path that may or may not still name something."""
    p = path
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        cuts = [i for i, c in enumerate(p) if c == '/'] or [0]
        i = rng.choice(cuts + [rng.randrange(len(p) + 1)])
        if k < .5:
            p = p[:i] + rng.choice(['/', '//', '/.', '/./', '/..', '/../', '/x/..', '/d/..', '/d/../', '../', './', '..', '.', '\\', '\\..\\', '%2e%2e/', '%2f', '\0', '/\0', ' ', '/root/', '/../root', '?', '?x=1', '#', '~']) + p[i:]
        elif k < .65:
            p = p[:i] + p[i + 1:]
        elif k < .75:
            p = p.swapcase()
        elif k < .85:
            p += rng.choice(['/', '.', '/.', '/..', '/index.html', '\0', '\0.html', '.html', '~', ' ', '/x'])
        elif k < .9:
            p = p + rng.choice(['x' * 255, 'x' * 256, 'x' * 300, '/x' * 1500, 'x' * 5000])
        else:
            p = p[::-1]
    return p


def path(rng, files, pages):
    r = rng.random()
    if r < .12:
        return rng.choice(['/', '', '/index.html', '/d/', '/d', '//', '/.', '/..', '/../', '.', '..', '../', '/../outside.txt', '/../root/a.html', '/d/../../outside.txt', '/..', '/root', '/etc/passwd', '//etc/passwd', '///etc/passwd', 'a.html', 'xa.html', '/none'])
    known = ['/' + f for f in files] * 2 + ['/' + p for p in pages] * 3
    p = rng.choice(known) if known else '/x.html'
    return twist(rng, p) if r > .65 else p


def hexp(s):
    return hexs(s.encode('utf-8'))


def plainhttp(p):
    return p and all(c > 32 and c != 127 for c in p.encode('utf-8')) and len(p) < 900


def page(rng, known=None):
    known = (rng.random() < .5) if known is None else known
    n = 1 if known else rng.choice([0, 1, 1, 2, 3, 5])
    return known, [contents(rng)[:400] for _ in range(n)]


def case(rng, cid, pagish):
    kind = rng.choice(['dynamic', 'caching'])
    files = tree(rng, rng.choice([0, 1, 2, 4, 8]))
    lines = ['file %s %s' % (hexp(f), hexs(contents(rng))) for f in files]
    lines += ['outside %s %s' % (hexp(o), hexs(contents(rng))) for o in ('outside.txt', 'index.html', 'out/secret', 'rootx/a.html')]
    if rng.random() < .3:
        lines.append('dir ' + hexp('empty.html'))
    lines.append('server ' + kind)
    pages = []
    names = ['p.html', 'api.json', 'q', 'd/p.js', 'e.d/noext', 'A.TXT', 'x y', '', '.h', 'index.html', 'index.html'] + files
    for _ in range(rng.choice([2, 5, 10, 16])):
        r = rng.random()
        if r < (.3 if pagish else .08):
            n = rng.choice(names if pagish or rng.random() < .3 else names[:4])
            if pages and rng.random() < .4:
                n = rng.choice(pages)
            k, chunks = page(rng)
            if kind == 'caching' and not k and rng.random() < .5:
                chunks = []
            if kind == 'dynamic' and not chunks:
                chunks = [b'']
            lines.append('add %s %d %s' % (hexp(n), k, ' '.join(hexs(c) for c in chunks)))
            pages.append(n)
        elif r < (.38 if pagish else .2):
            f = rng.choice(files + tree(rng, 1))
            if not any(o.startswith(f + '/') or f.startswith(o + '/') for o in files):
                if f in files and rng.random() < .4:
                    lines.append('delete ' + hexp(f))
                    files.remove(f)
                else:
                    lines.append('file %s %s' % (hexp(f), hexs(contents(rng))))
                    if f not in files:
                        files.append(f)
        elif r < (.46 if pagish else .24):
            lines.append(rng.choice(['reload', 'reload', 'reset']))
            if lines[-1] == 'reset' and kind == 'caching':
                pages = []
        elif r < .32 and not pagish:
            if rng.random() < .6 or not files:
                lines.append('absolute %s %s %s' % (hexp(rng.choice(['', '/', '//', '/./', '/../', '/..//', '/d/../..//', 'x', '.', '/x/', '\0', '////', '/d//', '/index.html/', '/d/..//'])),
                                                    hexp(rng.choice(['outside.txt', 'out/secret', 'index.html', 'root/' + (files[0] if files else 'x')])), hexp(rng.choice(['', '', '', '/', '\0', '.html']))))
            else:
                lines.append('cut %s %d' % (hexp('/' + rng.choice(files)), rng.choice([0, 1, 10, 100, 1000, 5000])))
        else:
            p = path(rng, files, pages)
            if pagish and pages and rng.random() < .5:
                p = '/' + rng.choice(pages)
            lines.append(('http ' if plainhttp(p) and rng.random() < .3 else 'get ') + hexp(p))
            if pagish and rng.random() < .3:
                lines.append(lines[-1])
    return cid, lines


class Base:
    """A directory for the harness, which nothing else uses."""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='bomba-files-')
        return {'FS_BASE': self.dir}

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def corrupt(events, rng):
    gets = [e for e in events if e['e'] == 'get']
    if not gets:
        return None
    e = rng.choice(gets)
    k = rng.random()
    if e['k'] == 'file':
        if k < .4 and e['b']:
            e['b'] = e['b'][:-1]
            return 'contents cut', events
        if k < .7:
            e['type'] = e['type'] + [120]
            return 'wrong type', events
        e['k'], e['b'], e['type'], e['announced'] = 'refused', [], [], -1
        if e['path'] in ([], [47]) or e['path'][-1:] == [47] or any(x['e'] == 'add' for x in events) or b'..' in bytes(e['path']) or b'//' in bytes(e['path']) or b'\0' in bytes(e['path']):
            return None
        return 'refused instead', events
    if e['k'] == 'refused':
        e['k'], e['b'], e['announced'], e['type'] = 'file', [120, 121, 122, 1, 2], 5, [120]
        return 'made up', events
    return None
