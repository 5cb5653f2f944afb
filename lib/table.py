"""Which suites and design models decide which property."""
SUITES = {
    'life': dict(gen='GenLife'),
    'sig': dict(gen='GenSig'),
    'exec': dict(gen='GenExec'),
    'misc': dict(gen='GenMisc'),
    'step': dict(gen='GenStep', modes=('dyn',)),
    'rand': dict(gen='GenRand'),
}
# clauses that also belong to another property in some scenarios: (property, script, clause)
ALSO = [
    ('C19', r'\bsw ', 'fini-thread runs twice|fini-thread inside a blocked window|before every running thread had|before main had|fini-thread got other data'),
    ('C06', r'\bblocksd', 'before every running thread had|before main had'),
    ('C18', r'\bmask ', 'signal delivered while blocked'),
]
MODELS = {
    'ExitB': dict(module='Exit', cfg='ExitB.cfg'),
    'ExitF': dict(module='Exit', cfg='ExitF.cfg'),
    'ExitL': dict(module='Exit', cfg='ExitL.cfg'),
    'ExitS': dict(module='Exit', cfg='ExitS.cfg', tier='thorough'),
    'ExitA': dict(module='Exit', cfg='ExitA.cfg', tier='thorough', heap='8g', timeout=1800),
    'ExitC': dict(module='Exit', cfg='ExitC.cfg', tier='thorough', heap='8g', timeout=1800),
}
EX, EF = ['ExitB', 'ExitS', 'ExitA'], ['ExitF', 'ExitC']
L, S, X, M, P = ['life'], ['sig'], ['exec'], ['misc'], ['step']
OP = lambda ops, ints='.*', sk='[mt]': '^step-%s-(%s)-(%s)$' % (sk, ops, ints)
def any_of(*r): return '|'.join(r)
FX = {'sig': '^fatal|^sw-(exit|blocksd|cancel)', 'exec': '^exec-(path|sig|env|fail|args)|^sys-(exitin|over)|^systhr', 'misc': '^bc|^dl-.*exit'}
XS = {'exec': '^exec-sig'}
ENDS, KILL = 'exit|_exit|pexit|ret', 'exit|_exit|term|fsig|h-exit|h-_exit'
PROPS = {
    'C01': dict(suites=L + X + P, filter={'exec': '^exec-(env|args|chain)|^sys-', 'step': OP('exec|fork', 'fork|exec|create')}),
    'C02': dict(models=EX + EF[1:], suites=L + S + X + M + P, filter=dict(FX, **{'step': any_of(OP(ENDS, KILL), OP('exec', KILL), OP('fork', 'exit|fsig')), 'step:thorough': '.'})),
    'C03': dict(models=['ExitL'] + EX, suites=L + S + P, filter=dict(FX, **{'step': any_of(OP('create|fork|bc|sd|sys|exec|dl|dis|ret|mask', 'fsig|h-exit|exit'), '^step-[bcd]-'), 'step:thorough': '.'})),
    'C04': dict(models=EX, suites=L + S + M + P, filter=dict(FX, **{'step': any_of(OP('ret|pexit', '.*', 't'), '^step-[bcd]-|^step-reuse'), 'step:thorough': any_of(OP('ret|pexit|create|dis|sd|exit|_exit'), '^step-[bcd]-|^step-reuse')})),
    'C05': dict(models=EX, suites=L + S + M + P, filter=dict(FX, **{'step': any_of(OP('create|fork|bc|sd|sys|exec|dl|dis|ret|pexit|sa|mask|sw', 'exit|term', 't'), OP('create|sd|ret|sw', '_exit', 'm'), '^step-[bcd]-(exit|term|_exit)'), 'step:thorough': '.'})),
    'C06': dict(models=EX, suites=L + S + P, filter={'sig': '^sw-(exit|blocksd)', 'step': any_of(OP('sd'), OP('ret|exit|_exit|create|fork', 'sd'))}),
    'C07': dict(models=['ExitB'], suites=L + P, filter={'step': any_of(OP('q'), '^step-c-|^step-reuse', OP('create|ret|pexit|exit|fork|dis', 'h-q'), '^step-[bcd]-h-q')}),
    'C08': dict(models=['ExitB'], suites=L + P, filter={'step': any_of(OP('create'), '^step-c-create|^step-reuse', OP('create|dis|fork', 'create'))}),
    'C09': dict(suites=L + M + P, filter=dict(FX, **{'step': OP('dis')})),
    'C10': dict(models=EF, suites=L + P, filter={'step': any_of(OP('fork'), OP('create|ret|sys', 'fork|h-fork'))}),
    'C11': dict(models=EF, suites=L + P, filter={'step': any_of(OP('fork'), OP('create|ret|pexit|sd|exit|bc', 'fork|h-fork'), '^step-[bcd]-(fork|h-fork)'), 'step:thorough': any_of(OP('fork'), OP('.*', 'fork|h-fork'), '^step-[bcd]-(fork|h-fork)')}),
    'C12': dict(suites=X + P, filter={'exec': '^exec', 'step': any_of(OP('exec|xfail'), OP('create|fork|ret|exit', 'exec|h-exec'))}),
    'C13': dict(suites=X + P, filter={'exec': 'sys', 'step': any_of(OP('sys'), OP('create|ret|fork', 'sys'))}),
    'C14': dict(suites=L + X + M, filter={'exec': '^(rsys|realmask|exec-(path|args|env).*-r|exec-[a-z]*-r)', 'misc': '^dl'}),
    'C15': dict(suites=S + X + P, filter=dict(XS, **{'step': any_of(OP('sa'), '^step-same')})),
    'C16': dict(suites=S + P, filter={'step': any_of(OP('raise'), '^step-same', OP('sa|mask|sw|create', 'h-q|h-fork|bc'))}),
    'C17': dict(models=['ExitB', 'ExitA'], suites=S + P, filter={'step': any_of(OP('.*', 'fsig', 't'), OP('.*', 'term', 'm'), '^step-[bcd]-(fsig|term)'), 'step:thorough': any_of(OP('.*', 'fsig|term|h-exit|h-_exit'), '^step-[bcd]-(fsig|term)')}),
    'C18': dict(suites=S + X + P, filter=dict(XS, **{'step': OP('mask')})),
    'C19': dict(suites=S + P, filter={'step': OP('sw')}),
    'C20': dict(suites=M + P, filter={'misc': '^dl', 'step': OP('dl')}),
    'C21': dict(suites=M, filter={'misc': '^mpi'}), 'C22': dict(suites=M, filter={'misc': '^mpi'}),
    'C23': dict(suites=M + P, filter={'misc': '^bc', 'step': any_of(OP('bc'), '^step-[bcd]-(bc|h-q)', OP('create|ret|exit|_exit|pexit|dis', 'bc|h-q'))}),
}
# pseudo-random histories
for _p in PROPS:
    _k = {'rnd-l': 'C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C20 C23', 'rnd-s': 'C10 C11 C12 C13 C15 C16 C17 C18 C19'}
    _r = [k for k in _k if _p in _k[k].split()]
    if _r:
        PROPS[_p]['suites'] = PROPS[_p]['suites'] + ['rand']
        PROPS[_p]['filter'] = dict(PROPS[_p].get('filter', {}), rand='^(%s)-' % '|'.join(_r))
