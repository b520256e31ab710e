"""Write MANIFEST.json from the table below (python3 tools/gen_manifest.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
CLAIMS = {
    'C01': ('abstract interpretation: effect analysis of the lazy entry points',
            'Shows for every analysed entry point and key class that no reachable operation '
            'converts, reads or coerces array data.'),
    'C02': ('ownership and freshness analysis of in-place writes',
            'Every in-place write reachable from conversions, indexing and streaming must target '
            'an object created there.'),
    'C03': ('typestate analysis of the node run loops over their control-flow graphs, with '
            'exceptional edges',
            'Decides the token protocol and the draining of inputs on all paths; thread '
            'scheduling enters only through the protocol argument.'),
    'C04': ('dependence analysis of memo keys and lock-step guards',
            'Decides what a shared node depends on and that unequal chunks are refused.'),
    'C05': ('template invariants over power sums, exact polynomial identities on abstract '
            'transfer functions',
            'Algebraic (exact real) correctness of one generic step from a generic state; '
            'floating-point error is out of scope.'),
    'C06': ('kind-flow and mask-provenance analysis by abstract interpretation',
            'NumPy operations are classified as keeping or dropping masks by a hand-written '
            'table; anything else is undecided.'),
    'C07': ('dtype-flow analysis by abstract interpretation',
            'Result dtype terms compared with declared dtype terms.'),
    'C08': ('constant propagation by abstract interpretation, compared with a table written '
            'from the documentation',
            'All public functions and operators, direct and streamed, plain and masked.'),
    'C09': ('capacity and state-size analysis by abstract interpretation',
            'Bounds queues, conversions and state per construct.'),
    'C10': ('interval analysis of index classes by abstract interpretation',
            'Every integer class (in range, negative, out of range) per array class, ranks 1-3.'),
    'C11': ('abstract axis classes through every aggregation',
            'All axis classes for ranks 1-3.'),
    'C12': ('abstract interpretation with equal/distinct attribute classes',
            'Three pieces, every attribute, each position.'),
    'C13': ('tiling and permutation domains by abstract interpretation',
            'Chunk cuts for symbolic sizes; traversal for ranks up to 4.'),
    'C14': ('abstract interpretation: observables of indexed and original instances compared',
            'Conversion terms of the indexed instance equal those of the original with '
            'indexed sources.'),
    'C15': ('axis-label typing of key application by abstract interpretation',
            'All combinations of key kinds up to rank 3.'),
    'C16': ('capture and effect analysis of task functions',
            'Tasks mutate nothing they capture; masked flag and result order.'),
    'C18': ('shape-domain abstract interpretation: the declared shape against the shape of the '
            'conversion term',
            'Axis lengths and key contents are given ones of every kind; element data is never '
            'modelled.'),
}
NA = {
    'C17': 'Equality of element values for arbitrary keys, data and nestings of virtual arrays: '
           'the index arithmetic that decides it runs on run-time key contents, which no static '
           'domain in reach bounds. C10, C14 and C15 decide the structural parts.',
    'C19': 'Agreement of two engines whose chunk partitions and groupings are computed at run '
           'time from the data shapes by a dictionary-driven algorithm; equality of their '
           'results is not decidable from the source by a static domain in reach.',
    'C20': 'A numerical error bound for arbitrary run-time data and chunk lengths; bounding the '
           'rounding error of a data-length loop needs value analysis over all inputs, which no '
           'static argument in reach provides.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS and os.path.exists(os.path.join(HERE, 'bsa', 'p_%s.py' % i.lower())):
            t, note = CLAIMS[i]
            checks.append({
                'property': i,
                'quick_cmd': 'python3 -m bsa.run %s --tier quick' % i,
                'thorough_cmd': 'python3 -m bsa.run %s --tier thorough' % i,
                'technique': 'static analysis: ' + t,
                'level': 'other',
                'level_note': note + ' Constructs the analysis does not understand are reported '
                'as undecided and counted in the evidence; a violation is reported only for a '
                'construct that is understood and breaks the rule. Trusted: the analyser (bsa/), '
                'its models of Python builtins and NumPy, CPython\'s ast parser.'})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'No sound check has been built for it yet.')})
    m = {'version': 1,
         'setup_cmd': 'python3 -m compileall -q bsa',
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks parse /repo/biggus on every run; nothing of biggus is imported or '
                  'executed. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
