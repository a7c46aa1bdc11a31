"""What is explored for each property."""

RULE = ('calls of the public API with random larrys, labels and arguments, each '
        'recorded with its outcome and judged by TLC against the specification; a '
        'call is non-trivial if it returned a value that the specification fixes, '
        'and distinct if operation, operands, axis and outcome differ')
SRULE = ('; before that, every call with small operands that the module Small lists: '
         'TLC checks the laws of the property on the outcome that the specification '
         'gives it, and the call is made and judged, too')
TRUST = ['numpy, bottleneck, h5py and scipy behave as documented',
         'cells are compared as exact rationals after rounding to denominators up '
         'to 20000 (relative 2e-11)']


# properties for which Small.tla lists all calls with small operands
SMALL = ['C%02d' % i for i in range(1, 27) if i != 13] + ['C32', 'C33']


def calls(quick, thorough, clauses=None):
    def plan(run):
        run.cov['rule'] = RULE
        run.assumptions += TRUST
        if run.prop in SMALL:
            run.cov['rule'] += SRULE
            run.small(4 if run.quick else 8, clauses)
        run.record_and_judge(quick if run.quick else thorough,
                             4 if run.quick else 8, clauses)
        return 'model_checking' if run.prop in SMALL else 'exploration'
    return plan


def only_malformed(e, cl):
    if e['op'] == 'construct':
        return cl
    return [c for c in cl if c in ('malformed', 'hang')]


def only_changes(e, cl):
    return [c for c in cl if c in ('mutated', 'aliased', 'hang')]


PLANS = {}
for _p in ['C%02d' % _i for _i in range(2, 27)] + ['C32', 'C33', 'C34', 'C35']:
    PLANS[_p] = calls(24000, 300000)
PLANS['C34'] = calls(12000, 120000)
PLANS['C35'] = calls(8000, 80000)
PLANS['C01'] = calls(24000, 300000, only_malformed)
PLANS['C13'] = calls(24000, 300000, only_changes)

def everything(e, cl):
    return cl


def only_parts(e, cl):
    return cl if e['op'] in ('partget', 'partset', 'maskset') else []


def only_failures(e, cl):
    return cl if e['out']['st'] != 'ok' or 'should_raise' in cl or 'unusable' in cl \
        or e['op'] in ('save', 'setitem') else []


def only_repacks(e, cl):
    return cl if e['op'] == 'repack' else []


def round_trip(e, cl):
    return [] if e['op'] in ('partset', 'maskset', 'repack') else cl


HRULE = ('steps of histories of archives on disk, random and generated from the state '
         'graph of the model; after each step all keys are loaded and compared with '
         'the dictionary of the specification; a step is non-trivial if it was not '
         'refused, and distinct if operation, operand, outcome or content differ')
HTRUST = ['h5py and HDF5 behave as documented',
          'a key is one or more names joined by "/"; where the specification says that '
          'a save may be refused because emptied groups are in the way, both outcomes '
          'are accepted']


def archive(quick, thorough, keep, tour=None, repacks=None):
    def plan(run):
        run.cov['rule'] = HRULE
        run.assumptions += HTRUST
        run.histories(quick if run.quick else thorough, 4 if run.quick else 8, keep)
        if tour:
            run.model('ArchiveModel')
            ws = run.tour('ArchiveModel', 'ArchivePlans', tour[0] if run.quick else tour[1])
            run.histories(0, 4 if run.quick else 8, keep, what='tours', plans=ws)
        if repacks:
            run.model('RepackModel')
            run.repacks(repacks[0] if run.quick else repacks[1], 4 if run.quick else 8)
        return 'model_checking' if tour or repacks else 'exploration'
    return plan


LRULE = ('; steps of programs on a few living larrys, random and generated from the '
         'state graph of HeapModel: for each step the outcome, the cells and label lists '
         'that its results refer to, and the contents of all living larrys are compared '
         'with the heap of the specification')
INPLACE = ('setitem', 'setmask', 'set', 'fill', 'lixset', 'tamper')


def only_inplace(e, cl):
    return cl if e['op'] in INPLACE else []


def only_form(e, cl):
    return [c for c in cl if c in ('malformed', 'hang')]


def programs(prop, quick, thorough, keep, tour=None):
    base = PLANS[prop]

    def plan(run):
        level = base(run)
        run.cov['rule'] = run.cov['rule'] + LRULE
        n = 4 if run.quick else 8
        run.histories(quick if run.quick else thorough, n, keep,
                      script='hist_larry.py', module='HeapTrace', what='programs')
        if tour:
            run.model('HeapModel')
            ws = run.tour('HeapModel', 'HeapPlans', tour[0] if run.quick else tour[1])
            run.histories(0, n, keep, script='hist_larry.py', module='HeapTrace',
                          what='program_tours', plans=ws)
        return 'model_checking' if tour else level
    PLANS[prop] = plan


programs('C01', 300, 6000, only_form)
programs('C12', 300, 6000, only_inplace)
programs('C13', 600, 12000, only_changes, tour=(0.05, 1.0))

PLANS['C27'] = archive(500, 8000, everything, tour=(0.15, 1.0))
PLANS['C28'] = archive(900, 12000, round_trip)
PLANS['C29'] = archive(500, 8000, only_parts)
PLANS['C30'] = archive(500, 8000, only_failures, tour=(0.15, 1.0))
PLANS['C31'] = archive(300, 5000, only_repacks, repacks=(1600, 16000))

TECH = ('TLA+ specification of the operations; calls recorded from the real code are '
        'judged by TLC (trace validation)')
NOTE = ('Every recorded call must be one that the specification allows: outcome, '
        'labels, values, dtype, refusal, operands unchanged, results not shared. '
        'Random exploration, no proof of absence; trusts numpy, the recorder and TLC.')
STECH = ('; for every call with small operands TLC checks the laws of the property on the '
         'outcome that the specification gives it, and the call is replayed on the code')


def level(p):
    return 'model_checking' if p in SMALL or p in ('C13', 'C27', 'C30', 'C31') \
        else 'exploration'


ABOUT = dict((p, (level(p), TECH + (STECH if p in SMALL else ''), NOTE)) for p in PLANS)

PTECH = ('; TLA+ heap of larrys that share cells and label lists: recorded programs on '
         'living larrys are validated step by step')
for _p in ('C01', 'C12', 'C13'):
    ABOUT[_p] = (level(_p), ABOUT[_p][1] + PTECH + (
        ', transitions of the model checked heap model are replayed' if _p == 'C13' else ''),
        NOTE)

HTECH = ('TLA+ state machine of the archive{}; recorded histories of real archives are '
         'validated step by step')
HTOUR = (', model checked by TLC, whose transitions are replayed on real archives')
HNOTE = ('Every step of every recorded history must be one that the specification allows '
         'and must leave exactly the specified keys and larrys on disk. Random and '
         'model-generated histories, no proof of absence; trusts HDF5, the recorder, TLC.')
for _p in ('C27', 'C28', 'C29', 'C30'):
    ABOUT[_p] = (level(_p), HTECH.format(HTOUR if _p in ('C27', 'C30') else ''), HNOTE)
ABOUT['C31'] = (level('C31'), HTECH.format('') + '; repacks stopped at every line and failing '
                'at every copying call are judged by the invariants of the model of repack, '
                'which TLC checks', HNOTE)
