"""C15: cached and generated pages are always current."""
from checks.filegen import *
from vlib import build


def mixed(events, rng):
    """A reading that is too old or too new."""
    i = rng.choice([i for i, e in enumerate(events) if e['e'] == 'rend'])
    e = events[i]
    if rng.random() < .5:
        done = [x['v'] for x in events[:i] if x['e'] == 'vstart']
        e['v'] = max(done) + 1
        return 'version of the future', events
    r = max(k for k in range(i) if events[k]['e'] == 'rstart' and events[k]['r'] == e['r'])
    done = [x['v'] for x in events[:r] if x['e'] == 'vend']
    e['v'] = max(done) - 1
    return 'version replaced before', events


def run(chk):
    chk.model('MC_Versions', 'MC_Versions.cfg' if chk.quick else 'MC_Versions_deep.cfg', workers=2)
    for bug in ('unlocked', 'first', 'forget'):
        chk.model_must_fail('MC_Versions', 'MC_Versions_%s.cfg' % bug)
    rng = chk.rng
    plain, racy = build('file_server'), build('file_server', sanitize='thread')
    cases = [case(rng, 'p%d' % i, True) for i in range(1000 if chk.quick else 15000)]
    with Base() as env:
        chk.conform(plain, 'T_Files', 'T_Files.cfg', cases, corrupt=corrupt, corrupt_n=20, driver_env=env)
        for n, binary in (('t', racy), ('a', plain)):
            cases = [('%s%d' % (n, i), ['server caching', 'race %d %d %s' % (rng.randint(1, 6), rng.choice([2, 6, 12]), rng.choice(['page', 'file']))]) for i in range(12 if chk.quick else 200)]
            chk.conform(binary, 'T_Versions', 'T_Versions.cfg', cases, corrupt=mixed, corrupt_n=6, driver_env=env)
