#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties check.py decides."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NA = {}          # property -> reason, for what the family cannot address
TECH = {
    'fam_rdt': 'TLA+ (Rdt): TLC model checking, TLC-generated and random calls of the real code validated by TLC against the specification',
    'fam_text': 'TLA+ (Text): TLC-generated and random texts and frames run through the real code, every recorded call validated by TLC',
    'fam_ids': 'TLA+ (Ids, Hash): TLC-generated and random calls of the real code, every recorded call validated by TLC',
    'fam_store': 'TLA+ (Store): TLC model checking, TLC-generated and random histories replayed on the real stores, recorded traces validated by TLC',
    'fam_cli': 'TLA+ (Cli, on Replica): TLC model checking of all short sessions, sessions of commands run through the real command line tool, recorded traces validated by TLC',
    'fam_replica': 'TLA+ (Replica): TLC model checking, generated histories replayed on real replicas, recorded traces validated by TLC',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in check.FAMILY:
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py %s quick' % p,
            'thorough_cmd': 'python3 check.py %s thorough' % p,
            'technique': TECH[check.FAMILY[p]],
            'level': 'model_checking',
            'level_note': 'The specification is checked exhaustively within small bounds; the code is bound to it by '
                          'conformance of every recorded call/history (exhaustive small scopes generated by TLC plus '
                          'seeded random larger ones), not by proof over the code.'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check registered yet (work in progress)')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
