#!/usr/bin/env python3
"""modeltest.py: shows that the contract can tell a wrong design from the right one.

Runs the design specifications with each deliberately wrong variant (constant Wrong) and expects TLC to
find a broken clause.  Not a check: it says nothing about /repo."""
import os, re, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import tlc
BASE = dict(N=2, Ends='{"exit","_exit"}', MaxFork=0, Blocks='FALSE', MaxReq=2)
EXIT = {
    'linklate': dict(N=3, Ends='{"_exit"}', MaxReq=1), 'earlyappl': {}, 'noclaim': {}, 'nocas': {}, 'nowait': {}, 'nosweep': {},
    'noblk': dict(Blocks='TRUE'), 'never1': dict(Blocks='TRUE'), 'finiwait': dict(live=1),
    'keepcookie': dict(MaxFork=1, live=1, Ends='{"_exit"}'), 'keepexit': dict(MaxFork=1, Ends='{"_exit"}', MaxReq=1),
    'keepftdone': dict(MaxFork=1, Ends='{"_exit"}', MaxReq=1), 'keeplock': dict(MaxFork=1, live=1, Ends='{"_exit"}', MaxReq=1),
}
def cfg(consts, wrong, live):
    t = 'SPECIFICATION %s\nCONSTANTS\n' % ('Fair' if live else 'Spec')
    for k, v in consts.items(): t += ' %s = %s\n' % (k, v)
    t += ' Wrong = "%s"\nINVARIANT Clean\nCHECK_DEADLOCK FALSE\n' % wrong
    if live: t += 'PROPERTY Terminates\n'
    return t
def main():
    bad = 0
    for w, o in EXIT.items():
        if len(sys.argv) > 1 and w not in sys.argv[1:]: continue
        o = dict(o); live = o.pop('live', 0)
        c = dict(BASE); c.update(o)
        fd, path = tempfile.mkstemp(suffix='.cfg'); os.write(fd, cfg(c, w, live).encode()); os.close(fd)
        try:
            out = tlc.tlc('Exit', cfg=path, workers=6, heap='8g', timeout=900, ok=(0, 10, 11, 12, 13))
        finally:
            os.unlink(path)
        m = re.findall(r'^/\\ bad = (.*(?:\n[^/].*)*)', out, re.M)
        if 'No error has been found' in out: bad += 1; r = 'NOT DETECTED'
        elif 'Temporal' in out: r = 'does not terminate'
        else: r = re.sub(r'\s+', ' ', m[-1]) if m else out[-300:]
        print('%-12s %s' % (w, r)); sys.stdout.flush()
    return 1 if bad else 0
sys.exit(main())
