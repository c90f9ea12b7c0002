#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check                                                          # noqa

TREE = 'TLA+ forest specification (Tree.tla): TLC model check of bounded configurations, ' \
    'replay of every transition in the real code, TLC validation of recorded random histories'
TECH = {
    'C09': 'TLA+ specification of the cache over a backend: TLC model check, replay of every '
           'transition, TLC validation of recorded histories',
    'C10': 'TLA+ specification of factory children: TLC model check, replay of every '
           'transition, TLC validation of recorded histories',
    'C11': 'TLA+ specification of key translation: TLC model check, replay of every transition, '
           'TLC validation of recorded translations',
    'C12': 'TLA+ specification of event dispatch: TLC model check, replay of every transition, '
           'TLC validation of recorded histories',
    'C13': 'TLA+ specification of event attributes and suppression scopes: TLC model check, '
           'replay of every transition, TLC validation of recorded histories',
    'C14': 'TLA+ specification of fallback resolution evaluated by TLC on all bounded trees, '
           'replay of every case, TLC validation of recorded lookups',
    'C15': 'TLA+ specification of the serialized form and its inverse, replay of all bounded '
           'trees, TLC validation of recorded documents and results',
    'C16': 'TLA+ specification of copies on the forest state, replay of all bounded trees, TLC '
           'validation of recorded copies and later histories',
    'C17': 'TLA+ specification of the reentrant tree lock: TLC model check of interleavings, '
           'deterministic scheduling of the real code, TLC validation of recorded schedules',
    'C18': 'TLA+ specification of the structural codec, replay of all bounded structures, TLC '
           'validation of recorded conversions',
}
NOTE = 'Exhaustive within the stated bounds of the model; every explored transition and ' \
    'recorded history of the real code is compared with the specification. Beyond the bounds ' \
    'only sampled. Trusts TLC, the projection of the harness and the assumptions in the ' \
    'evidence file.'


def main():
    ids = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
    have = set()
    for name in check.MODULES:
        have |= set(importlib.import_module('harness.' + name).CHECKS)
    checks, na = [], []
    for i in ids:
        if i in have:
            checks.append(dict(
                property=i, quick_cmd='python3 check.py {} --quick'.format(i),
                thorough_cmd='python3 check.py {} --thorough'.format(i),
                evidence_file='evidence/{}.json'.format(i),
                technique=TECH.get(i, TREE), level='model_checking', level_note=NOTE))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    json.dump(dict(version=1,
                   setup_cmd='python3 tools/setup.py',
                   hooks=dict(guard='none', enable='no hooks: the checks use the public API of '
                              'the unchanged sources', source_commits=[]),
                   checks=checks, not_applicable=na),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
