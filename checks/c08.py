"""C08: JSON-RPC requests are executed once and answered as the standard says."""
from checks.rpcgen import *
from vlib import build


def case(rng, i):
    api = rng.choice(['tree', 'tree', 'tree', 'one'])
    lines = ['server json ' + api]
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        doc = jsondoc(rng, api)
        if rng.random() < .15:
            doc = damaged(rng, doc)
        parts.append(http(rng, 'POST', rng.choice(['/', '/', '/rpc', '/svc/echo']), doc, 'application/json', extra=rng.random() < .3))
    return ('j%d' % i, lines + pieces(rng, b''.join(parts)))


def run(chk):
    chk.model('MC_JsonRpc', 'MC_JsonRpc.cfg' if chk.quick else 'MC_JsonRpc_deep.cfg', workers=2 if chk.quick else 6, timeout=3000)
    for bug in ('eager', 'loud', 'strict', 'shared'):
        chk.model_must_fail('MC_JsonRpc', 'MC_JsonRpc_%s.cfg' % bug)
    binary = build('rpc_http')
    cases = [case(chk.rng, i) for i in range(1000 if chk.quick else 16000)]
    # long batches, long texts, deeply nested additional members
    rng = chk.rng
    for i in range(24 if chk.quick else 300):
        k = rng.choice(['batch', 'text', 'deep', 'id'])
        if k == 'batch':
            doc = '[' + ','.join(jsonrequest(rng, 'tree') for _ in range(rng.choice([17, 33, 40]))) + ']'
        else:
            big = json.dumps(longtext(rng)[:1500], ensure_ascii=False)
            members = ['"jsonrpc":"2.0"', '"method":"svc.echo"', '"params":{"s":%s}' % (big if k == 'text' else '"x"'), '"id":%s' % (big if k == 'id' else '5')]
            if k == 'deep':
                members.append('"more":' + nested(rng, rng.choice([17, 33, 60])))
            rng.shuffle(members)
            doc = '{' + ','.join(members) + '}'
        cases.append(('l%d' % i, ['server json tree'] + pieces(rng, http(rng, 'POST', '/', doc.encode('utf-8', 'surrogatepass'), 'application/json'))))
    chk.conform(binary, 'T_RpcHttp', 'T_RpcHttp.cfg', cases, corrupt=corrupt, corrupt_n=24)
