"""Writes MANIFEST.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
TECH = {
    'C03': 'TLA+ specification of the generator (TLC); its verdict on each grammar compared with the macro',
    'C14': 'TLA+ specification of the front end, one action per declaration (TLC); its verdict compared with the macro',
    'C26': 'TLA+ specification of the Rust surface (TLC, exhaustive over its cases); each outcome compared with a real expansion',
    'C27': 'TLA+ specification of the reader of declarations (TLC); each text it reads, right or wrong, compared with the macro and, through the rest of the specification, with the generated parser',
    'C25': 'TLA+ specification of the automaton (TLC); its states, items and actions compared with the printed report',
}
INV = {'C01': 'IsDerivation AcceptOnlyDerivable ViablePrefix StackPath', 'C02': 'IsDerivation TreesMatch', 'C03': 'CompressionOK', 'C04': 'PrecedenceOK', 'C05': 'PrecedenceOK',
       'C06': 'TypeOK StackPath', 'C07': 'ViablePrefix CompressionOK', 'C08': 'CompressionOK StackPath', 'C09': 'AsItself IsDerivation', 'C10': 'AsItself CompressionOK',
       'C11': 'IsDerivation TreesMatch', 'C12': 'IsDerivation', 'C13': 'TypeOK', 'C14': 'the front end agreement assertion of Generate', 'C15': 'OrderOK', 'C16': 'DropKeepsStack',
       'C17': 'StackPath Linear', 'C18': 'NothingLeft', 'C19': 'ExpectedOK', 'C20': 'Latched', 'C21': 'WithinLimit', 'C22': 'Independent', 'C23': 'Independent', 'C24': 'Linear NothingLeft', 'C25': 'CompressionOK'}
checks = []
for i in ids:
    if i in NA:
        continue
    note = ('TLC explores all the cases of spec/PomeloSurface.tla with every order of their declarations, checking Confluent Faithful Reasons HygieneOK; '
            'every case is expanded by /repo, shown by an attribute macro and run. Trusts TLC and rustc.') if i == 'C26' else (
            'TLC reads every text of a family of trees of tokens up to a bound, and longer texts with and without mistakes, with spec/PomeloSyntax.tla, checking Ordered RoundTrip Alone Terminated; '
            'wrong texts have to be errors of the macro at the same token, and parsers of right ones behave as those of the declarations read, as explored with Pomelo.tla. '
            'Bounded: trees are sampled for the comparison. Trusts TLC and rustc.') if i == 'C27' else None
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=TECH.get(i, 'TLA+ specification explored by TLC; every behaviour replayed into the real generated parsers'),
        level='model_checking',
        level_note=note or 'TLC explores the specification on a corpus of grammars (curated and seeded random) with every sequence of calls up to a '
                   'bound plus longer sentences, checking all invariants (%s decide this property on the model); each behaviour is replayed into '
                   'parsers generated by /repo and compared event by event. Bounded: holds for the grammars and inputs explored. '
                   'Trusts TLC, rustc and harness/rt.rs.' % INV.get(i, '')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Specification in spec/ (TLA+, TLC). No hooks in /repo: everything is observed through the macro and the generated API. '
               'The commits in /repo are repairs (fix:), listed in known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
