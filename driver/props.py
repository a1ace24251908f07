"""What each check runs: the scenario families, the specification that judges them, and how many."""
import scen, parse, jobs, dyn, faults

FAMILY = dict(scen.SCEN, F19=parse.f19, F20=parse.f20, F12=jobs.f12, F13=jobs.f13, F14=jobs.f14, F11=faults.f11, F11R=parse.f11r, **dyn.DYN)
ENUM = {'F19X': parse.f19x}        # families numbered from 0, the same for every seed
ASSUME = ['The harness (harness/simd.c) gives the daemon a simulated clock, signals, users and a recorded fork/exec; '
          'the time zone data and the C library of the sandbox are trusted.',
          'TLC and the scenario driver are trusted.']


def fam(spec, *parts):
    """parts: (family, scenarios in quick, in thorough)"""
    def plan(tier):
        return [('family', f, spec, q if tier == 'quick' else t) for f, q, t in parts]
    return plan


PLAN = {
    'F01': fam('DaemonTrace', ('F01', 4000, 40000)),
    'F02': fam('DaemonTrace', ('F02', 4000, 40000)),
    'F03': fam('DaemonTrace', ('F03', 4000, 40000)),
    'F04': fam('DaemonTrace', ('F04', 4800, 40000)),
    'F05': fam('DaemonTrace', ('F05', 4800, 40000)),
    'F06': fam('DaemonTrace', ('F06', 4800, 40000)),
    'F07': fam('DaemonTrace', ('F07', 3200, 30000)),
    'F08': fam('DaemonTrace', ('F08', 3200, 30000)),
    'F09': fam('DaemonTrace', ('F09', 4000, 40000)),
    'F10': fam('DaemonTrace', ('F10', 4800, 40000)),
    'F11': lambda tier: [('family', 'F11', 'DaemonTrace', 4000 if tier == 'quick' else 40000),
                         ('family', 'F11R', 'ParserTrace', 2000 if tier == 'quick' else 20000)],
    'F12': fam('JobTrace', ('F12', 2000, 30000)),
    'F13': fam('JobTrace', ('F13', 2000, 30000)),
    'F14': fam('JobTrace', ('F14', 2000, 30000)),
    'F15': fam('DaemonTrace', ('F15', 4000, 40000)),
    'F16': fam('DaemonTrace', ('F16', 3200, 30000)),
    'F17': fam('DaemonTrace', ('F17', 3200, 30000)),
    'F18': fam('DaemonTrace', ('F18', 3200, 30000)),
    'F19': fam('ParserTrace', ('F19X', parse.F19X_QUICK, parse.F19X_ALL), ('F19', 6000, 60000)),
    'F20': fam('ParserTrace', ('F20', 6000, 60000)),
    'F23': fam('DaemonTrace', ('F23', 4800, 40000)),
}

TECH_DEFAULT = 'TLA+ trace validation: executions of the real daemon under a simulated clock, checked by TLC against spec/Daemon.tla'
NOTE_DEFAULT = ('Every recorded execution must be a behaviour of the specification; random and targeted scenarios, '
                'so exhaustive only in the model-checked parts.')
PARSE = ('TLA+: the meaning of a fcrontab as a function of its characters (spec/Parser.tla), compared by TLC with what the real fcrontab '
         'accepts and the real daemon loads')
JOB = ('TLA+ trace validation: the jobs and mailers a real daemon executes, for fcrontabs which the real fcrontab installs, checked by TLC '
       'against spec/Job.tla (which derives identity, environment and mail from the text of the fcrontab)')
FAULT = ('TLA+ trace validation with fault injection: the real fcron and fcrontab are killed at, or fail in, chosen operations on files; the '
         'outcomes allowed are those of spec/Daemon.tla (flaky)')
TECH = {'F11': FAULT, 'F19': PARSE, 'F20': PARSE, 'F12': JOB, 'F13': JOB, 'F14': JOB}
NOTE = {'F11': 'Every crash or failure point is drawn at random among the operations on files of an event; what is saved is read back and compared field by field (F11R).',
        'F19': 'Every field of up to four (thorough: five) tokens of a small alphabet, and random fcrontabs.',
        'F20': 'Random fcrontabs: options, their scope, shortcuts, assignments, comments, continuations, damaged lines.'}
NA = {}
