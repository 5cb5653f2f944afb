"""Validates recorded traces with TLC: every trace must be consumed to its end."""
import json, os, tempfile, concurrent.futures as cf
import tlc

FIN = dict(e='fin', p=0, u=0, a=0, b=0, c=0, d=0, s='')
EXP = dict(nulldata=0, giveup=0, stack=0, failfork=0, xok=0, xerr=0, sysret=-999, ign=[], cfg=[], shoot=0, dyn=0, cl=0)

def validate(traces, module='Trace', jobs=6, chunk_events=40000):
    """-> ({trace index: [[prop, text, event index], ...]}, states)"""
    if not traces: return {}, 0
    chunks, cur, n = [], [], 0
    total = sum(len(t['t']) for t in traces)
    chunk_events = max(4000, min(chunk_events, total // jobs + 1))
    for i, t in enumerate(traces):
        cur.append(i); n += len(t['t'])
        if n >= chunk_events: chunks.append(cur); cur, n = [], 0
    if cur: chunks.append(cur)
    res, states = {}, 0
    def one(ix):
        fd, path = tempfile.mkstemp(suffix='.ndjson')
        try:
            with os.fdopen(fd, 'w') as f:
                for i in ix:
                    t = traces[i]
                    ex = dict(EXP); ex.update(t['exp'])
                    f.write(json.dumps({'id': str(i), 'exp': ex, 't': t['t'] + [FIN]}) + '\n')
            out = tlc.tlc(module, env={'VF_TRACES': path})
            return out
        finally:
            os.unlink(path)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for ix, out in zip(chunks, ex.map(one, chunks)):
            d = {int(x[1]): x[2] for x in tlc.printed(out, 'TRACE-DONE')}
            if set(d) != set(ix):
                raise tlc.TLCError('%s: not every trace was consumed: %d of %d\n%s' % (module, len(d), len(ix), out[-2000:]))
            res.update(d)
            states += tlc.counts(out)[0]
    return res, states
