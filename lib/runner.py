"""Runs scenarios (script text) against the built library; returns normalised traces."""
import json, os, subprocess, tempfile, shutil, concurrent.futures as cf
from build import build

PIDFIELDS = {'post_fork': 'a', 'fork_p': 'a', 'born': 'a', 'post_fork.': 'a', 'sigrcv': 'd'}
M31 = 0x3fffffff

class Runner:
    def __init__(self, bld, jobs=None):
        self.b = bld
        self.jobs = jobs or min(12, (os.cpu_count() or 4) + 2)
        self.tmp = tempfile.mkdtemp(prefix='vfrun.')
        self.nruns = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def env(self, sc):
        h = self.b.h
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/', 'VFH': h}
        if sc.get('mode', 'dyn') == 'dyn':
            e['LD_PRELOAD'] = '%s/libvf.so:%s:%s/libshim.so' % (h, self.b.lib, h)
        else:
            e['LD_PRELOAD'] = '%s/libshim.so' % h
        if sc.get('bindnow', True):
            e['LD_BIND_NOW'] = '1'
        e.update(sc.get('env', {}))
        return {('VFE_' + k): v for k, v in e.items() if v is not None}

    def raw(self, sc, timeout_ms=None):
        d = tempfile.mkdtemp(dir=self.tmp)
        try:
            with open(d + '/s', 'w') as f:
                prog = self.b.h + ('/vfapp' if sc.get('mode', 'dyn') == 'dyn' else '/vfapp_static')
                f.write(sc['script'].replace('@H@', self.b.h).replace('@D@', d).replace('@APP@', prog))
            for k, v in sc.get('files', {}).items():
                p = os.path.join(d, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if v == 'dir': os.makedirs(p, exist_ok=True); continue
                if v.startswith('ln:'): os.symlink(v[3:].replace('@H@', self.b.h), p); continue
                if v == 'probe': shutil.copy(self.b.h + '/vfprobe', p); continue
                mode, _, txt = v.partition(':')
                open(p, 'w').write(txt.replace('@H@', self.b.h)); os.chmod(p, int(mode, 8))
            tmo = timeout_ms or sc.get('timeout', 12000)
            args = [prog] + [a.replace('@H@', self.b.h) for a in sc.get('args', [])]
            cmd = [self.b.h + '/vrun', sc['id'], str(tmo), d + '/s', d + '/out', '--'] + args
            env = {k: v.replace('@D@', d).replace('@H@', self.b.h) for k, v in self.env(sc).items()}
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d,
                               timeout=tmo / 1000 + 60)
            if r.returncode:
                raise RuntimeError('vrun failed %d for %s' % (r.returncode, sc['id']))
            o = json.loads(r.stdout.decode('utf-8', 'replace'))
            try:
                o['out'] = open(d + '/out', errors='replace').read()[-2000:]
            except OSError:
                o['out'] = ''
            return o
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, sc, timeout_ms=None):
        self.nruns += 1
        o = self.raw(sc, timeout_ms)
        return normalise(o, sc)

    def run_many(self, scs, timeout_ms=None):
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            return list(ex.map(lambda s: self.run(s, timeout_ms), scs))

def clamp(v):
    return v if -0x40000000 <= v <= 0x3fffffff else ((v & M31) if v > 0 else -(-v & M31))

def normalise(o, sc):
    pids, us = {}, {}
    def pid(x):
        if x <= 0: return x
        if x not in pids: pids[x] = len(pids) + 1
        return pids[x]
    t = []
    for r in o['t']:
        p = pid(r['p'])
        u = us.setdefault(r['u'], len(us) + 1) if r['u'] else 0
        e = r['e']
        if e == 'pk' and r['a']: r['a'] = us.setdefault(r['a'], len(us) + 1)
        f = PIDFIELDS.get(e)
        if f: r[f] = pid(r[f])
        t.append({'e': e, 'p': p, 'u': u, 'a': clamp(r['a']), 'b': clamp(r['b']), 'c': clamp(r['c']),
                  'd': clamp(r['d']), 's': r['s']})
    return {'id': sc['id'], 'exp': sc.get('exp', {}), 't': t, 'hang': o['hang'], 'over': o['over'],
            'steps': o['steps'], 'ips': o.get('ips', []), 'ms': o['ms'], 'out': o['out']}

def show(tr):
    for i, r in enumerate(tr['t']):
        print('%3d p%d u%d %-16s %s %s %s %s %s' % (i, r['p'], r['u'], r['e'], r['a'], r['b'], r['c'], r['d'], r['s']))
