"""addseed.add(id, prop, [(file, old, new)...], needs, breaks, demo): makes seeded/<id> from a replacement in /repo's tree."""
import subprocess, os, json
DEMO = open('/verif/seeded/C13a/demo.sh').read()
def add(sid, prop, edits, needs, breaks, demo, sh=None):
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout, 'dirty /repo'
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(sh or DEMO)
    if demo is not None:
        open(d + '/demo.cpp', 'w').write(demo)
