"""sub(file, [(old, new)...], message, property): a small repair in /repo as one commit, recorded in known_findings.txt."""
import os, subprocess
REPO = os.environ.get('FX_REPO', '/repo')
def sub(path, pairs, msg, prop=None, check=True):
    p = REPO + '/' + path
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
    if msg:
        assert not msg.startswith('fix')
        subprocess.check_call(['git', '-C', REPO, 'commit', '-qam', 'fix: ' + msg])
        if REPO == '/repo':
            note(prop)
def note(prop):
    h, m = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s'], capture_output=True, text=True).stdout.strip().split(' ', 1)
    open('/verif/known_findings.txt', 'a').write('fixed: property=%s %s repaired defect: %s\n' % (prop, h, m[5:]))
