"""Scenario suites: generated by TLC from the Gen* specifications, run on the real library, judged by TLC."""
import json, os, tempfile, time, zlib, concurrent.futures as cf
import tlc, traces
from build import build
from runner import Runner, show

def generate(module, env=None, cfg=None, simulate=None, seed=1):
    fd, path = tempfile.mkstemp(suffix='.ndjson'); os.close(fd)
    try:
        e = {'VF_OUT': path}; e.update(env or {})
        if simulate:
            out = tlc.tlc(module, cfg=cfg, env=e, extra=('-simulate', 'num=%d' % simulate, '-seed', str(seed), '-depth', '200'))
            return [json.loads(l) for l in open(path)]
        out = tlc.tlc(module, cfg=cfg or 'Empty.cfg', env=e)
        n = tlc.printed(out, 'GENERATED')
        scs = [json.loads(l) for l in open(path)]
        if not n or n[-1][1] != len(scs): raise tlc.TLCError(module + ': generator did not finish')
        return scs
    finally:
        os.unlink(path)

def expand(scs, modes=('dyn', 'static'), tier='quick'):
    out = []
    for s in scs:
        if s['tier'] == 1 and tier != 'thorough': continue
        for m in modes:
            if s['mode'] not in ('both', m): continue
            reps = s['reps'] * (5 if tier == 'thorough' and s['reps'] > 1 else 1)
            for k in range(reps):
                d = dict(s)
                d['mode'] = m
                d['base'] = s['id']
                d['exp'] = dict(s['exp'], dyn=1 if m == 'dyn' else 0)
                d['id'] = '%s/%s%s' % (s['id'], m, '' if k == 0 else '#%d' % k)
                d['script'] = '\n'.join(s['script']) + '\n'
                d['env'] = dict((k2, v) for k2, v in s['env'])
                d['files'] = dict((k2, v) for k2, v in s['files'])
                d['timeout'] = s['tmo']
                out.append(d)
    return out

def run(runners, scs, batch=160, maxhang=6):
    """-> traces in order (None where not run because too many hangs were seen)"""
    res, hangs = [], 0
    for i in range(0, len(scs), batch):
        if hangs >= maxhang:
            res += [None] * (len(scs) - i); break
        part = scs[i:i + batch]
        with cf.ThreadPoolExecutor(next(iter(runners.values())).jobs) as ex:
            r = list(ex.map(lambda s: runners[s['variant']].run(s), part))
        hangs += sum(1 for t in r if t['hang'])
        res += r
    return res

def points(t, code, every=False):
    """The values of k worth stopping at in a probe run's list of places: before each access to memory other than the
    stack and before each call that leaves the library (interference anywhere else commutes with the instructions in
    between), the first two times and the last time at each place."""
    n, ips = t['steps'], t['ips']
    if n == 0: return []
    if every or not code or len(ips) < n: return list(range(1, n + 1))
    want, seen = set(), {}
    for k, ip in enumerate(ips, 1):
        if code.get(ip, 1):
            seen.setdefault(ip, []).append(k)
    for ks in seen.values(): want.update(ks[:2] + ks[-1:])
    want.add(n)
    return sorted(want)

def steps(runners, scs, tier='quick'):
    """Scenarios that preempt a thread after its k-th instruction inside the library: measure where they are and
    make one scenario for each k (a sample, spread differently in each scenario, when there are more than its limit)."""
    st = [s for s in scs if s['step']]
    if not st: return scs
    out = [s for s in scs if not s['step']]
    probe = [dict(s, id=s['id'] + '@0', script=s['script'].replace('@K@', '1000000000')) for s in st]
    with cf.ThreadPoolExecutor(next(iter(runners.values())).jobs) as ex:
        res = list(ex.map(lambda s: runners[s['variant']].run(s), probe))
    for s, t, pr in zip(st, res, probe):
        ks = points(t, runners[s['variant']].b.code())
        cap = s['step'] * (10 if tier == 'thorough' else 1)
        out.append(pr)
        if len(ks) > cap:
            off = zlib.crc32(s['id'].encode()) % 1000 / 1000.0
            ks = [ks[int((i + off) * len(ks) / cap)] for i in range(cap)]
        for k in ks:
            out.append(dict(s, id='%s@%d' % (s['id'], k), script=s['script'].replace('@K@', str(k))))
    return out
