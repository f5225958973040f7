"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 'C01': 'independent text generator/parser as online oracle over generated texts',
 'C02': 'error-class monitor with a reference recogniser over near misses',
 'C03': 'error-location monitor with a reference tokenizer and prefix viability',
 'C04': 'token-trace monitor against a reference tokenizer over all of Unicode',
 'C05': 'print/parse round-trip monitor with a structural model',
 'C06': 'repr/eval round-trip monitor with a structural model',
 'C07': 'pickle/copy round-trip monitor, also through other processes',
 'C08': 'equality/hash monitor against structural models over call histories',
 'C09': 'differential monitor over construction routes',
 'C10': 'ill-formedness monitor over construction attempts',
 'C11': 'differential monitor against NumPy indexing of conforming data',
 'C12': 'import monitor against a reference reading of NumPy dtypes',
 'C13': 'export monitor against a reference mapping to NumPy',
 'C14': 'algebraic monitor against numpy.result_type',
 'C15': 'conformance monitor between values and discovered types',
 'C16': 'classification monitor against a reference classifier of scalar text',
 'C17': 'least-upper-bound monitor over permuted tables',
 'C18': 'import monitor over arrays in many memory layouts',
 'C19': 'predicate monitor against structural definitions, all spellings',
 'C20': 'search monitor against a reference traversal',
 'C21': 'verdict monitor against a reference conformance relation',
 'C22': 'conservation monitor over concatenations, orders and groupings',
 'C23': 'set-algebra monitor with reference families',
 'C24': 'assertion monitor against a reference difference finder',
 'C25': 'record monitor against the list of fields given',
 'C26': 'symbol-table history monitor with recording constructors',
 'C27': 'state-snapshot monitor over call histories with injected interruptions',
 'C28': 'controlled scheduler at line/instruction granularity, sequential oracle',
 'C29': 'transcript comparison across processes with different hash seeds',
 'C30': 'registration-history monitor with an identity model',
 'C31': 'differential monitor: own types and classes in place of built-in ones',
 'C32': 'step-count monitor over families of growing inputs',
 'C33': 'memory monitor: blocks, objects and weak references over batches',
 'C34': 'layout monitor against an independent typesetter, at the widths where it changes',
 'C35': 'reachability monitor over random graphs and sequences',
}
checks = []
for pid in sorted(ORACLE):
    checks.append(dict(
        property=pid,
        quick_cmd='./run.sh ' + pid,
        thorough_cmd='VERIF_TIER=thorough ./run.sh ' + pid,
        technique='runtime monitoring: ' + ORACLE[pid],
        level='exploration',
        level_note='Every execution explored is judged by an oracle independent '
                   'of the code under test; executions not generated are not '
                   'covered. Trusts CPython, NumPy and the reference in /verif/vf.'))
json.dump(dict(
    version=1,
    setup_cmd="cd /verif && PYTHONPATH=/repo:/verif PYTHONDONTWRITEBYTECODE=1 "
              "/opt/venv/bin/python -W ignore -c 'import datashape, vf.api'",
    checks=checks, not_applicable=[],
    notes='Known findings and repairs: known_findings.txt. No hooks in /repo: the '
          'monitors observe the public API, tracing and process state from outside.'),
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
