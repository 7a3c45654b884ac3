"""C22: forms made by the JavaScript client."""
import json, os
from vlib import REPO
from checks import c21
from checks.c21 import HARNESS, text, number, answer, value


def entered(r):
    return json.dumps({'num': number(r), 'str': text(r), 'bool': r.random() < .6})


def case(r, i):
    lines = []
    for _ in range(r.choice([1, 1, 2])):
        d = c21.describe(r, ['input', 'button', 'details', 'label', 'legend'])
        lines += ['desc ' + json.dumps(d), 'load window -']
        forms = 0
        for _ in range(r.choice([6, 15, 30])):
            x = r.random()
            if not forms or x < .12 and forms < 12:
                if r.random() < .3:
                    lines.append('form -')
                    forms += len(d['methods'])
                else:
                    lines.append('form ' + r.choice(d['methods'])['name'])
                    forms += 1
            elif x < .5:
                f = r.randrange(forms)
                for _ in range(r.choice([1, 2, 5])):
                    lines.append('enter %d %d %s' % (f, r.randrange(12), entered(r)))
            elif x < .75:
                lines.append('press %d' % r.randrange(forms))
                if r.random() < .6:
                    lines.append('respond 0 result %s' % json.dumps(answer(r)))
            elif x < .8:
                lines.append('flush')
            else:
                kind = r.choice(['result'] * 6 + ['error', 'broken', 'lost'])
                lines.append('respond %d %s %s' % (r.randrange(10), kind, json.dumps('some trouble ' + text(r) if kind == 'error' else answer(r))))
        for _ in range(30):
            lines.append('respond %d result %s' % (r.randrange(10), json.dumps(answer(r))))
        lines.append('flush')
    return 'f%d' % i, lines


def corrupt(events, rng):
    k = rng.choice(['sent', 'screen', 'form', 'enter', 'twice'])
    at = [i for i, e in enumerate(events) if e['e'] == ('sent' if k == 'twice' else k)]
    if not at:
        return None
    i = rng.choice(at)
    e = events[i]
    if k == 'sent':
        b = bytes(e['b'])
        e['b'] = list(b.replace(b'"params":{', b'"params":{"zz":1' + (b'' if b'"params":{}' in b else b',')))
    elif k == 'screen':
        if not e['texts'] or events[i - 1]['e'] != 'respond' or events[i - 1]['kind'] != 'result':
            return None
        for t in e['texts']:
            t.append(65)
    elif k == 'form':
        e['forms'].append(['num'])
    elif k == 'enter':
        e['v'] = {'k': 'num', 'b': [49, 49]} if e['v']['k'] != 'num' else {'k': 'bool', 'v': False}
    else:
        events.insert(i, dict(e))
    return k, events


def run(chk):
    chk.model('MC_JsForms', 'MC_JsForms.cfg' if chk.quick else 'MC_JsForms_deep.cfg')
    for bug in ('stale', 'common', 'first'):
        chk.model_must_fail('MC_JsForms', 'MC_JsForms_%s.cfg' % bug)
    cases = [case(chk.rng, i) for i in range(800 if chk.quick else 6000)]
    chk.conform('node', 'T_JsForms', 'T_JsForms.cfg', cases, args=(HARNESS, os.path.join(REPO, 'public_html', 'bomba.js')), corrupt=corrupt, corrupt_n=24)
