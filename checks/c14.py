"""C14: file servers serve exactly the files under their root."""
from checks.filegen import *
from vlib import build, hexs


def run(chk):
    chk.model('MC_Files', 'MC_Files.cfg' if chk.quick else 'MC_Files_deep.cfg')
    for bug in ('absolute', 'first', 'dots'):
        chk.model_must_fail('MC_Files', 'MC_Files_%s.cfg' % bug)
    binary = build('file_server')
    rng = chk.rng
    cases = []
    # every path over / . a (from the model) in the model's tree
    paths = chk.generate('MC_Files', 'G_Files.cfg')
    files = [('a', b'1'), ('aa/a', b'2'), ('.a', b'3'), ('a.a', b'4'), ('aa/.a', b'5'), ('a../a', b'6')]
    for k, kind in enumerate(['dynamic', 'caching']):
        for i in range(0, len(paths), 80):
            lines = ['file %s %s' % (hexp(f), hexs(c)) for f, c in files] + ['outside %s %s' % (hexp(f), hexs(b'out')) for f in ('a', 'aa/a', 'aaa', 'a.a')] + ['server ' + kind]
            cases.append(('m%d.%d' % (k, i), lines + ['get ' + hexs(bytes(p)) for p in paths[i:i + 80]]))
    for i in range(900 if chk.quick else 15000):
        cases.append(case(rng, 'r%d' % i, False))
    with Base() as env:
        chk.conform(binary, 'T_Files', 'T_Files.cfg', cases, corrupt=corrupt, corrupt_n=24, driver_env=env)
