"""The deciding procedure shared by all checks.

For one property: (1) TLC explores the design specifications that have clauses of this property;
(2) TLC generates the scenarios of the property's suites from the generator specifications; (3) every
scenario runs on the library built from /repo's working tree; (4) TLC judges every recorded trace with
the contract specification.  A clause of this property broken on a trace is confirmed by running the
scenario again before it is reported."""
import json, os, re, sys, time
import tlc, traces, suite
from build import build, BuildError, VERIF
from runner import Runner

EVID = os.path.join(VERIF, 'evidence')

def known_findings(pid):
    """lines: known: property=<id> scenario=<id> clause=<text>  -- what fails"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) scenario=(\S+) clause="([^"]*)" (.*)', l)
            if m and m.group(1) == pid: out.append(m.groups()[1:])
    except OSError:
        pass
    return out

class Check:
    def __init__(self, pid, tier, seed):
        from table import PROPS, SUITES, MODELS, ALSO
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = PROPS[pid]; self.suites = SUITES; self.models = MODELS; self.alsos = ALSO
        self.t0 = time.time()
        self.states = self.trans = self.ntr = self.nrun = self.events = 0
        self.notes, self.samples, self.modelinfo = [], [], []
        self.perprop = 0
        self.viol = []           # (scenario, text, trace)
        self.known_seen = {}
        self.unconfirmed = []

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a); sys.stdout.flush()

    # ------------------------------------------------------------- models
    def run_models(self):
        for m in self.spec.get('models', []):
            md = self.models[m]
            if md.get('tier') == 'thorough' and self.tier != 'thorough': continue
            module, cfg = md['module'], md['cfg']
            out = tlc.tlc(module, cfg=cfg, workers=md.get('workers', 6), heap=md.get('heap', '6g'), timeout=md.get('timeout', 600),
                          extra=md.get('extra', ()), ok=(0, 10, 11, 12, 13))
            if 'Model checking completed. No error has been found.' not in out:
                # a design model that fails says nothing about /repo's code: it is a defect of the specification
                raise tlc.TLCError('design model %s (%s) does not satisfy the contract:\n%s' % (m, cfg, out[-3000:]))
            g, d = tlc.counts(out)
            self.states += d; self.trans += g
            self.modelinfo.append({'model': m, 'module': module, 'cfg': cfg, 'states': d, 'transitions': g, 'exhaustive': True})
            self.log('model', m, g, 'states generated,', d, 'distinct')

    # -------------------------------------------------------------- suites
    def scenarios(self):
        out = []
        for sn in self.spec['suites']:
            su = self.suites[sn]
            if su.get('tier') == 'thorough' and self.tier != 'thorough': continue
            env = {'VF_SEED': str(self.seed), 'VF_TIER': self.tier}
            scs = suite.generate(su['gen'], env=env, cfg=su.get('cfg'), simulate=su.get('simulate', {}).get(self.tier), seed=self.seed)
            scs = suite.expand(scs, su.get('modes', ('dyn', 'static')), self.tier)
            fl = self.spec.get('filter', {})
            flt = fl.get(sn + ':' + self.tier, fl.get(sn))
            for s in scs:
                if flt and not re.search(flt, s['base']): continue
                s['suite'] = sn; s['trace'] = su.get('trace', 'Trace')
                out.append(s)
        return out

    def also(self, sc, text):
        return any(a == self.pid and re.search(b, sc['script']) and re.search(c, text) for a, b, c in self.alsos)

    def props_of(self, sc, vs):
        """clauses of this property broken by the trace"""
        r = []
        for p, text, idx in vs:
            if self.pid in p.split() or (p == 'ANY' and self.pid in sc['any']) or self.also(sc, text): r.append((text, idx))
        return r

    def judge(self, scs, trs):
        by = {}
        for s, t in zip(scs, trs):
            if t is not None: by.setdefault(s['trace'], []).append((s, t))
        res = []
        for mod, lst in by.items():
            v, st = traces.validate([t for _, t in lst], mod)
            self.states += st; self.trans += st; self.ntr += len(lst)
            self.events += sum(len(t['t']) for _, t in lst)
            for i, (s, t) in enumerate(lst):
                bad = self.props_of(s, v[i])
                if bad: res.append((s, t, bad))
        return res

    def run(self):
        self.run_models()
        scs = self.scenarios()
        self.log(len(scs), 'scenarios generated')
        variants = sorted({s['variant'] for s in scs})
        self.builds = {v: build(v) for v in variants}
        self.runners = {v: Runner(self.builds[v]) for v in variants}
        try:
            self.log('built', ','.join(variants))
            scs = suite.steps(self.runners, scs, self.tier)
            trs = suite.run(self.runners, scs)
            self.nrun += sum(1 for t in trs if t is not None)
            self.skipped = sum(1 for t in trs if t is None)
            self.log('ran', self.nrun, 'scenarios,', self.skipped, 'skipped')
            bad = self.judge(scs, trs)
            self.log('judged', self.events, 'events,', len(bad), 'rejected')
            self.trs = trs; self.scs = scs
            self.confirm(bad)
        finally:
            for r in self.runners.values(): r.close()

    # ------------------------------------------------------------- confirm
    def confirm(self, bad):
        kf = known_findings(self.pid)
        tried = set()
        for s, t, vs in bad:
            new = []
            for text, idx in vs:
                k = [x for x in kf if x[0] == s['base'] and x[1] == text]
                if k: self.known_seen[(s['base'], text)] = k[0][2]
                else: new.append((text, idx))
            if not new: continue
            if len(self.viol) >= 1 and (s['base'], new[0][0]) in tried: continue
            tried.add((s['base'], new[0][0]))
            if len(self.viol) >= 2 or len(tried) > 8: break
            texts = {x[0] for x in new}
            ok = self.reproduce(s, texts)
            if ok: self.viol.append((s, ok[0], ok[1], t))
            elif 'hang' not in texts and sum(1 for b in bad if texts & {x[0] for x in b[2]}) >= 3:
                # the interleaving did not come back, but the same clause was broken in several runs already
                self.viol.append((s, new[0], t, t))
            else:
                self.unconfirmed.append({'scenario': s['id'], 'clauses': sorted(texts)})
                self.log('not repeated:', s['id'], sorted(texts))

    def reproduce(self, s, texts):
        """run the scenario again, several times, until one of the same clauses is broken again"""
        hang = any(x == 'hang' for x in texts)
        t0 = time.time()
        limit = 60 if self.tier == 'quick' else 200
        r = self.runners[s['variant']]
        rounds = 0
        while time.time() - t0 < limit and rounds < 12:
            rounds += 1
            n = (4 if hang else 8) if rounds <= 2 else (12 if hang else 48)
            ss = [dict(s, id=s['id'] + '~%d.%d' % (rounds, k)) for k in range(n)]
            trs = r.run_many(ss)
            self.nrun += n
            for s2, t2, vs in self.judge(ss, trs):
                hit = [x for x in vs if x[0] in texts]
                if hit: return hit[0], t2
        return None

    # ------------------------------------------------------------ evidence
    def evidence(self, wall):
        os.makedirs(EVID, exist_ok=True)
        samples = []
        step = max(1, len(self.scs) // 3)
        for s, t in list(zip(self.scs, self.trs))[::step][:3]:
            if t is None: continue
            samples.append({'scenario': s['id'], 'script': s['script'].strip().split('\n')[:20],
                            'trace': ['%s p%d u%d %s' % (e['e'], e['p'], e['u'], [e['a'], e['b'], e['c'], e['d']]) for e in t['t'][:14]]})
        d = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
             'coverage': {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.ntr,
                          'evaluations': self.nrun, 'events_validated': self.events,
                          'distinct_scenarios': len({s['base'] for s in self.scs}),
                          'distinct_event_sequences': len({tuple((e['e'], e['p'], e['u']) for e in t['t']) for t in self.trs if t}),
                          'scenarios_skipped': self.skipped, 'models': self.modelinfo, 'suites': self.spec['suites'],
                          'builds': {k: b.key for k, b in self.builds.items()},
                          'rule': 'scenarios are enumerated by TLC from the generator specifications; each recorded trace is '
                                  'consumed to its end by the contract specification',
                          'samples': samples},
             'assumptions': self.spec.get('assumes', []) + [
                 'the event log of the harness orders each event between the call that causes it and the next event of that thread',
                 'design models bound threads, processes and requests as in their .cfg files'],
             'wall_s': round(wall, 2), 'violations': len(self.viol), 'known_findings': [list(k) for k in self.known_seen],
             'unconfirmed': self.unconfirmed}
        tmp = os.path.join(EVID, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f: json.dump(d, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))

    def report(self):
        self.evidence(time.time() - self.t0)
        for (b, text), what in sorted(self.known_seen.items()):
            print('KNOWN-FINDING: property=%s scenario %s: %s (%s)' % (self.pid, b, text, what))
        if not self.viol: 
            print('OK property=%s: %d scenarios, %d traces judged, %d states' % (self.pid, self.nrun, self.ntr, self.states))
            return 0
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for i, (s, hit, t2, t) in enumerate(self.viol):
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.pid, i))
            json.dump({'property': self.pid, 'clause': hit[0], 'event': hit[1], 'scenario': s, 'trace': t2['t'], 'output': t2['out']},
                      open(path, 'w'), indent=1)
            print('scenario %s: %s at event %d of the trace' % (s['id'], hit[0], hit[1]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1
