"""What every engine is built from and what every check runs."""

RMC_FLAGS = ['-std=c++17', '-O1', '-g', '-fsanitize=thread', '-U_FORTIFY_SOURCE', '-fno-pie',
             '-fno-exceptions', '-fno-rtti']
RMC_RUNTIME = [('rmc/rmc.cc', ['-std=c++17', '-O2', '-g', '-fno-stack-protector', '-U_FORTIFY_SOURCE',
                               '-fno-builtin-memcpy', '-fno-pie'])]
RMC_LINK = ['-no-pie', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset', '-ldl', '-lpthread']

ENGINES = {
    'conc': {'flags': RMC_FLAGS, 'sources': ['rmc/conc.cc', 'rmc/own.cc'], 'runtime': RMC_RUNTIME, 'link': RMC_LINK},
    'conc_ndebug': {'flags': RMC_FLAGS + ['-DNDEBUG'], 'sources': ['rmc/conc.cc', 'rmc/own.cc'], 'runtime': RMC_RUNTIME,
                    'link': RMC_LINK},
}


SEQ_FLAGS = ['-std=c++17', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-exceptions', '-fno-rtti']
SEQ_LINK = ['-fsanitize=address,undefined', '-lpthread']
ENGINES['seq'] = {'flags': SEQ_FLAGS, 'sources': ['seq/*.cc'], 'link': SEQ_LINK}
ENGINES['seq_ndebug'] = {'flags': SEQ_FLAGS + ['-DNDEBUG'], 'sources': ['seq/*.cc'], 'link': SEQ_LINK}


FILES_FLAGS = ['-std=c++17', '-O1', '-g', '-fno-exceptions', '-fno-rtti', '-fno-pie']
FILES_LINK = ['-no-pie', '-lpthread']
ENGINES['files'] = {'flags': FILES_FLAGS, 'sources': ['files/*.cc'], 'link': FILES_LINK}
ENGINES['files_ndebug'] = {'flags': FILES_FLAGS + ['-DNDEBUG'], 'sources': ['files/*.cc'], 'link': FILES_LINK}


def seq(group):
    return [{'engine': 'seq', 'group': group, 'label': 'sequential, checked build'},
            {'engine': 'seq_ndebug', 'group': group, 'label': 'sequential, unchecked build'}]


def conc(group):
    return [{'engine': 'conc', 'group': group, 'label': 'checked build'},
            {'engine': 'conc_ndebug', 'group': group, 'label': 'unchecked build', 'bound': 1, 'tiers': ('quick',)},
            {'engine': 'conc_ndebug', 'group': group, 'label': 'unchecked build', 'tiers': ('thorough',)}]


RMC_ASSUME = [
    'sequentially consistent interleavings at synchronisation operations; weaker orders are covered only as far as '
    'the happens-before race detector reports unordered plain accesses',
    'bounded deviations: preemptions, early time-outs, spurious and late wake-ups (bound_completed per scenario)',
]

CHECKS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C23', 'C33', 'C34', 'C35'):
    CHECKS[_p] = {'level': 'model_checking', 'parts': conc(_p), 'assumptions': RMC_ASSUME}

SEQ_ASSUME = [
    'operation sequences, alphabets and sizes up to the bound completed by each scenario',
    'memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer report',
]
for _p in ('C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19',
           'C20', 'C23', 'C24', 'C25', 'C26', 'C27', 'C29', 'C30', 'C31', 'C32'):
    if _p in CHECKS:
        CHECKS[_p] = {'level': 'model_checking', 'parts': seq(_p) + CHECKS[_p]['parts'],
                      'assumptions': SEQ_ASSUME + RMC_ASSUME}
    else:
        CHECKS[_p] = {'level': 'model_checking', 'parts': seq(_p), 'assumptions': SEQ_ASSUME}

for _e in ('seq', 'seq_ndebug'):
    CHECKS['C32']['parts'] += [
        {'engine': _e, 'group': 'same', 'label': _e + ', results compared', 'bound': 2, 'tiers': ('quick',), 'cmp': True},
        {'engine': _e, 'group': 'same', 'label': _e + ', results compared', 'bound': 4, 'tiers': ('thorough',),
         'cmp': True}]
for _e in ('conc', 'conc_ndebug'):
    CHECKS['C32']['parts'] += [
        {'engine': _e, 'label': _e + ', all scenarios', 'bound': 0, 'tiers': ('quick',), 'cmp': True},
        {'engine': _e, 'label': _e + ', all scenarios', 'bound': 1, 'tiers': ('thorough',), 'cmp': True}]
FILES_ASSUME = [
    'the process dies at system calls (before, part-way through or after a write); not a power failure',
    'a failed close() has given up the descriptor; errors are the errno values listed in files/files.cc',
    'the random device yields a fixed sequence, so that temporary names repeat',
]
for _p, _what in (('C21', 'result status, content read, file left, descriptors'),
                  ('C22', 'result status, crash point, files left'),
                  ('C28', 'records that reached the file, stop, descriptors')):
    CHECKS[_p] = {
        'level': 'fault_enumeration',
        'parts': [{'engine': 'files', 'group': _p, 'label': 'checked build'},
                  {'engine': 'files_ndebug', 'group': _p, 'label': 'unchecked build'}],
        'assumptions': FILES_ASSUME,
        'rule': 'an evaluation is one execution of a scenario with one combination of answers of the file system '
                '(plain, failed, interrupted, cut short, wrong size, process death); all combinations within the '
                'deviation bound are run, once each. Distinct and non-trivial: the pair of what was injected and what '
                'was observed (%s) differs from every other of its scenario.' % _what}

T_CONC = 'stateless model checking of the real code: all thread interleavings within bounded deviations'
T_SEQ = 'bounded exhaustive exploration of operation histories of the real code against a reference model'
T_FILE = 'exhaustive fault and crash-point enumeration of the real code under a system-call injector'
N_CONC = ('The unmodified sources run under a controlled scheduler (own pthread/futex/clock layer) that explores every '
          'interleaving within the deviation bound each scenario completes, with virtual time, happens-before race '
          'detection, freed-memory and deadlock detection. Assumes sequential consistency between race-free accesses '
          'and the scenarios\' thread and task counts.')
N_SEQ = ('The unmodified sources, under address and undefined-behaviour sanitizers, are run on every sequence of '
         'choices within the bound and compared step by step with a reference model, in checked and unchecked '
         'builds. Assumes the scenarios\' alphabets and lengths are representative beyond the bound.')
N_FILE = ('The unmodified sources run in a child process whose every file system call can fail, be cut short, be '
          'interrupted or be the last one; every combination within the deviation bound is run and judged from what '
          'is left on disk. Process death, not power failure.')
NOT_APPLICABLE = {}
for _p, _c in CHECKS.items():
    _engines = {x['engine'].split('_')[0] for x in _c['parts']}
    _k = [k for k in ('conc', 'seq', 'files') if k in _engines]
    _c.setdefault('technique', '; '.join({'conc': T_CONC, 'seq': T_SEQ, 'files': T_FILE}[k] for k in _k))
    _c.setdefault('note', ' '.join({'conc': N_CONC, 'seq': N_SEQ, 'files': N_FILE}[k] for k in _k))


def compare(recs):
    """C32: a scenario must go the same way in checked and unchecked builds: both
    hold it, with the same results observed, or neither does (which is for that
    scenario's own property to report)."""
    out = []
    by = {}
    for r in recs:
        by.setdefault((r['scenario'], 'seq' if r['engine'].startswith('seq') else 'conc'), {})[r['engine']] = r
    for (name, _), two in sorted(by.items()):
        if len(two) != 2:
            continue
        a, b = [two[e] for e in sorted(two)]
        bad = [r for r in (a, b) if r.get('violation')]
        if len(bad) == 1:
            other = b if bad[0] is a else a
            if other.get('capped'):
                continue
            out.append(dict(bad[0], violation='only in %s: %s' % (bad[0]['engine'], bad[0]['violation'])))
        elif not bad and a.get('same') and not a.get('capped') and not b.get('capped') and \
                a.get('bound_completed') == b.get('bound_completed') and a['digest'] != b['digest']:
            out.append(dict(a, violation='results observed differ between %s and %s (digests %s and %s)' % (
                a['engine'], b['engine'], a['digest'], b['digest'])))
    return out
