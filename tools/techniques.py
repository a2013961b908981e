"""technique and level note of every check (read by gen_manifest.py)"""
MODEL = 'explicit enumeration of a bounded space on the real code, each execution compared with an independent reference model'
TRUST = 'Exhaustive within the bounds in the evidence file (every declared case is executed on the real code; nothing is sampled); inputs outside the bounds are not covered. Trusts the reference model/oracle in mc/ and CPython.'
SEQ = 'bounded model checking of operation sequences on the real code: all sequences up to a depth, state compared with a model after every step'
T = {
    'C01': (MODEL + ' (class shapes x argument sets x argument orders)', TRUST),
    'C02': (MODEL + ' (default kinds x supplied values x construction sequences)', TRUST),
    'C03': (MODEL + ' (type expressions x values, non-strict checking)', TRUST),
    'C04': (MODEL + ' (type expressions x values, strict checking)', TRUST),
    'C05': (MODEL + ' (type expressions x all assignments of checking styles)', TRUST),
    'C06': (MODEL + ' (types x all coercer sequences with every outcome per coercer)', TRUST),
    'C07': (MODEL + ' (types x all validator sequences with every outcome per validator)', TRUST),
    'C08': (MODEL + ' (unions x permutations/duplications/nestings of their alternatives)', TRUST),
    'C09': (MODEL + ' (container shapes up to a size x element outcomes)', TRUST),
    'C10': (SEQ + '; every outcome compared with that on a freshly declared class', TRUST),
    'C11': (MODEL + ' (all bounds of a grid x all values)', TRUST),
    'C12': (MODEL + ' (coercer configurations x value alphabet)', TRUST),
    'C13': (MODEL + ' (decision table of class shapes x parser sets x arguments)', TRUST),
    'C14': (MODEL + ' (all assignments of parser behaviours over class hierarchies)', TRUST),
    'C15': (SEQ, TRUST),
    'C16': (SEQ + ', including pickling into processes with other hash seeds', TRUST),
    'C17': (MODEL + ' (all pairs and triples of instances)', TRUST),
    'C18': (MODEL + ' (classes x export options x instances)', TRUST),
    'C19': (MODEL + ' (all selections x mappings) and ' + SEQ, TRUST),
    'C20': (MODEL + ' (import routes x data x selections)', TRUST),
    'C21': (MODEL + ' (records x serialisation routes), round trips', TRUST),
    'C22': (MODEL + ' (all object graphs up to a size) and mutation sequences', TRUST),
    'C23': (MODEL + ' (class hierarchies up to a size)', TRUST),
    'C24': (MODEL + ' (token placements x declared types x values)', TRUST),
    'C25': ('stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler '
            '(line-level scheduling points in the library)', TRUST + ' Interleavings finer than a source line are not explored.'),
    'C26': (MODEL + ' (failing positions x error types x routes)', TRUST),
    'C27': (MODEL + ' (class bodies as sequences of declaration items)', TRUST),
    'C28': (MODEL + ' (hook behaviours x construction routes)', TRUST),
    'C29': (MODEL + ' (callback positions x nested operations)', TRUST),
    'C30': (MODEL + ' (tag contents and placements)', TRUST),
}
