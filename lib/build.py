"""Builds libmonitor from /repo's working tree, and the harness, into .work/<key>/ (cache by content)."""
import hashlib, os, re, shutil, subprocess, sys, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
H = os.path.join(VERIF, 'harness')

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e['LC_ALL'] = 'C'
    if env: e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError('%s\n%s' % (cmd, r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')

TOP = ['Makefile.am', 'Makefile.in', 'README', 'LICENSE', 'aclocal.m4', 'config.h.in', 'configure', 'configure.ac']

def repo_files():
    out = []
    for d in ('src', 'config'):
        for base, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                out.append(os.path.relpath(os.path.join(base, f), REPO))
    out += [f for f in TOP if os.path.exists(os.path.join(REPO, f))]
    return out

def key(variant):
    h = hashlib.sha256()
    for f in repo_files():
        h.update(f.encode() + b'\0')
        h.update(open(os.path.join(REPO, f), 'rb').read() + b'\0')
    for f in sorted(os.listdir(H)):
        h.update(open(os.path.join(H, f), 'rb').read())
    h.update(variant.encode())
    return h.hexdigest()[:16]

VARIANTS = {
    'default': [],
    'clientsig': ['--enable-client-signals=SIGPROF,37,SIGUSR2'],
    'shootsig': ['--enable-shootdown-signal=SIGUSR1'],
}

INSN = re.compile(r'^\s*([0-9a-f]+):\s+(.*)$')
MEM = re.compile(r'[-\w]*\((%[a-z0-9]+)?[^)]*\)')

class Build:
    _code = None
    def code(self):
        """address in libmonitor.so -> 1 if the instruction there touches memory other than the stack, or is the way
        to a function outside the library, else 0 ({} if that cannot be told)"""
        if self._code is None:
            self._code = {}
            try:
                got = []
                for l in sh(['readelf', '-SW', self.lib]).split('\n'):
                    m = re.match(r'\s*\[\s*\d+\]\s+(\.got\S*)\s+\S+\s+(\w+)\s+\w+\s+(\w+)', l)
                    if m: got.append((int(m.group(2), 16), int(m.group(2), 16) + int(m.group(3), 16)))
                sec = ''
                for l in sh(['objdump', '-d', '--no-show-raw-insn', self.lib]).split('\n'):
                    if l.startswith('Disassembly of section'): sec = l.split()[-1].rstrip(':')
                    m = INSN.match(l)
                    if not m: continue
                    ins = m.group(2)
                    if sec.startswith('.plt'): v = 1 if 'jmp' in ins else 0
                    else:
                        text, _, note = ins.partition('#')
                        op = text.split()[0] if text.split() else ''
                        x = MEM.search(text)
                        v = 0
                        if x and op not in ('lea', 'nop', 'nopw', 'nopl') and x.group(1) != '%rsp':
                            v = 1
                            if x.group(1) == '%rip' and note:
                                a = int(note.split()[0], 16)
                                if any(lo <= a < hi for lo, hi in got) and not op.startswith(('call', 'jmp')): v = 0
                                if '<monitor_debug' in note: v = 0
                        if op in ('lock', 'syscall') or '%fs:' in text and op.startswith('call'): v = 1
                    self._code[int(m.group(1), 16)] = v
            except (BuildError, ValueError, IndexError, OSError):
                self._code = {}
        return self._code

def build(variant='default'):
    os.makedirs(WORK, exist_ok=True)
    lk = open(os.path.join(WORK, 'lock.' + variant), 'w')
    fcntl.flock(lk, fcntl.LOCK_EX)
    k = key(variant)
    d = os.path.join(WORK, variant + '-' + k)
    b = Build(); b.dir = d; b.key = k; b.variant = variant
    b.lib = d + '/b/src/.libs/libmonitor.so.0.0.0'
    if not os.path.exists(d + '/OK'):
        for old in os.listdir(WORK):      # one build per variant is kept
            if old.startswith(variant + '-'):
                shutil.rmtree(os.path.join(WORK, old), ignore_errors=True)
        os.makedirs(d)
        s = d + '/s'
        for f in repo_files():
            t = os.path.join(s, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), t)
            os.chmod(t, 0o755)
        os.makedirs(s + '/tests', exist_ok=True)
        tm = os.path.join(REPO, 'tests')
        if os.path.isdir(tm):
            shutil.rmtree(s + '/tests'); shutil.copytree(tm, s + '/tests')
        t0 = 1600000000     # generated files are newer than what they are generated from
        for base, _, files in os.walk(s):
            for f in files:
                os.utime(os.path.join(base, f), (t0, t0))
        for i, f in enumerate(['aclocal.m4', 'configure', 'config.h.in', 'Makefile.in', 'src/Makefile.in']):
            if os.path.exists(s + '/' + f):
                os.utime(s + '/' + f, (t0 + 10 + i, t0 + 10 + i))
        os.makedirs(d + '/b')
        sh(['../s/configure', '--prefix=' + d + '/inst', 'CC=gcc'] + VARIANTS[variant], cwd=d + '/b')
        sh('make -j8 && make install', cwd=d + '/b')
        b2 = d + '/h'; os.makedirs(b2)
        I = '-I%s -I%s/src' % (H, s)
        cf = 'gcc -g -O1 -w -fno-omit-frame-pointer '
        cmds = [cf + '-o %s/vrun %s/vrun.c' % (b2, H),
                cf + '-shared -fPIC -o %s/libshim.so %s/shim.c -ldl' % (b2, H),
                cf + '-shared -fPIC %s -Wl,-soname,libvf.so -o %s/libvf.so %s/vf.c -lpthread -ldl' % (I, b2, H),
                cf + '-shared -fPIC -Wl,-soname,libfakempi.so -o %s/libfakempi.so %s/fakempi.c' % (b2, H),
                cf + '-o %s/vfprobe %s/probe.c' % (b2, H)]
        cmds += [cf + '-shared -fPIC -DNAME=\'"p%d"\' -DSYM=p%d_fn -o %s/p%d.so %s/plugin.c' % (i, i, b2, i, H) for i in (1, 2, 3)]
        run_all(cmds)
        cmds = [cf + '-o %s/vfapp -Wl,--no-as-needed %s/app.c %s/libvf.so %s/libfakempi.so -Wl,--allow-shlib-undefined -Wl,-rpath,%s -lpthread' % (b2, H, b2, b2, b2),
                cf + '-c %s -DVF_STATIC -o %s/vf.o %s/vf.c' % (I, b2, H)]
        extra = os.path.join(H, 'build_extra.sh')
        run_all(cmds)
        if os.path.exists(extra):
            sh(['bash', extra, H, s, b2, d + '/inst'])
        sh('%s/inst/bin/monitor-link -i %s/vf.o gcc -g -O1 -w -rdynamic -o %s/vfapp_static %s/app.c -Wl,-rpath,%s -Wl,--no-as-needed %s/libfakempi.so -lpthread -ldl' % (d, b2, b2, H, b2, b2))
        open(d + '/OK', 'w').write('ok')
    b.h = d + '/h'
    b.inst = d + '/inst'
    b.lib = d + '/inst/lib/libmonitor.so'
    if not os.path.exists(b.lib):
        raise BuildError('no libmonitor.so')
    return b

def run_all(cmds):
    ps = [(c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in ps:
        o = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            raise BuildError(c + '\n' + o)

if __name__ == '__main__':
    for v in (sys.argv[1:] or ['default']):
        print(build(v).dir)
