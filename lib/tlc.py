"""Runs TLC; no output is trusted unless TLC says it finished."""
import os, re, subprocess, tempfile, shutil, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TLCError(Exception):
    pass

def tlc(module, cfg=None, env=None, workers=1, extra=(), timeout=800, heap='3g', spec=SPEC, ok=(0,)):
    md = tempfile.mkdtemp(prefix='vftlc.')
    try:
        e = dict(os.environ); e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xmx' + heap, '-Xss16m',
               '-Djava.io.tmpdir=' + md, '-cp', JAR, 'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfg or (module + '.cfg')] + list(extra) + [module + '.tla']
        r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode(errors='replace')
        if r.returncode not in ok:
            raise TLCError('%s/%s: TLC exit %d\n%s' % (module, cfg, r.returncode, out[-3000:]))
        return out
    finally:
        shutil.rmtree(md, ignore_errors=True)

def counts(out):
    """(states generated, distinct states) of a TLC run"""
    m = re.findall(r'(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct', out)
    if not m: return (0, 0)
    g, d = m[-1]
    return (int(g.replace(',', '')), int(d.replace(',', '')))

# ---------------------------------------------------------------- TLA+ values
def parse_value(s, i=0):
    """parser for the TLA+ values our specifications print: tuples, sets, strings, integers"""
    while s[i] in ' \n': i += 1
    if s.startswith('<<', i): return _seq(s, i + 2, '>>')
    if s[i] == '{': return _seq(s, i + 1, '}')
    if s[i] == '"':
        j = i + 1; o = ''
        while s[j] != '"':
            if s[j] == '\\': j += 1
            o += s[j]; j += 1
        return o, j + 1
    m = re.compile(r'-?\d+|TRUE|FALSE').match(s, i)
    if not m: raise TLCError('cannot parse TLC output at: ' + s[i:i + 80])
    v = m.group(0)
    return ({'TRUE': True, 'FALSE': False}.get(v) if v[0] in 'TF' else int(v)), m.end()

def _seq(s, i, close):
    out = []
    while True:
        while s[i] in ' \n,': i += 1
        if s.startswith(close, i): return out, i + len(close)
        v, i = parse_value(s, i)
        out.append(v)

def printed(out, tag):
    """all printed tuples <<tag, ...>>"""
    res, i = [], 0
    pat = '<<"%s"' % tag
    pat2 = '<< "%s"' % tag
    while True:
        js = [j for j in (out.find(pat, i), out.find(pat2, i)) if j >= 0]
        if not js: return res
        v, i = parse_value(out, min(js))
        res.append(v)
