#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check module."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

TECH = {
    'C01': 'property-based round trip over all pack/unpack entry points',
    'C02': 'property-based round trip and reference fit oracle for metadata',
    'C03': 'property-based round trip over generated dtypes and memory layouts',
    'C04': 'property-based differential check against an independent strict parser',
    'C05': 'generated files from an independent encoder read back (differential)',
    'C06': 'fault-injecting property test: exhaustive bit flips and random corruption',
    'C07': 'exhaustive and random truncation, generated array/description mismatches',
    'C08': 'structure-aware mutation fuzzing in forked, resource-limited children',
    'C09': 'model-based histories of appends against a reference model and parser',
    'C10': 'model-based histories with refused appends, byte-for-byte comparison',
    'C11': 'model-based histories of metadata rewrites against a reference model',
    'C12': 'enumeration of small scopes plus generated sizes against an arithmetic oracle',
    'C13': 'property-based encode/decode inverses, differential against struct layouts',
    'C14': 'property-based check of the reservation rule with recording sinks',
    'C15': 'property-based differential against direct blosc compression',
    'C16': 'property-based command line round trip, differential against the API',
    'C17': 'generated command line invocations with directory snapshots',
    'C18': 'generated failing command line invocations',
    'C19': 'fault enumeration at every I/O call of generated operations',
    'C20': 'metamorphic histories: fresh against reused objects, verbosity, threads',
    'C21': 'property-based differential over all source/sink combinations',
    'C22': 'property-based monitoring of memory and of the I/O access pattern',
    'C23': 'property-based check against exact rational arithmetic',
    'C24': 'model-based histories of operations on several live objects',
    'C25': 'model-based messages; metamorphic comparison of every call and invocation across levels',
    'C26': 'fault injection at every operation of generated calls, with open descriptors compared',
    'C27': 'property-based differential against zlib, hashlib, json and struct; twin calls',
}
LEVEL = {'C19': 'fault_enumeration'}
TRUST = ('Trusted: python-blosc/c-blosc, zlib, hashlib, json and (where used) numpy, and the '
         'independent reference bpv/ref.py. Evidence of absence only within the generated cases.')
NOTE = {
    'C06': 'Covers single and double alterations; accidental checksum collisions are excluded by '
           'recomputing the digests. ',
    'C08': 'A case counts as hanging after 20 CPU seconds and may use 3 GB of address space; '
           'MemoryError counts as an ordinary exception. ',
    'C19': 'Every read, write, seek, tell, flush and truncate of the generated operations is made to '
           'fail once; process kill is simulated in a forked child. ',
    'C20': 'Interleavings of threads are sampled, not enumerated. ',
    'C22': 'Memory is measured with tracemalloc against a generous linear bound. ',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if not os.path.exists(os.path.join(VERIF, 'bpv', 'props', pid.lower() + '.py')):
            na.append({'property': pid, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': '%s run.py %s' % (PY, pid),
            'thorough_cmd': '%s run.py %s --tier thorough' % (PY, pid),
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH[pid],
            'level': LEVEL.get(pid, 'exploration'),
            'level_note': NOTE.get(pid, '') + TRUST})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo are needed; all /repo commits are fix: commits, see '
                  'KNOWN_FINDINGS.txt and DESIGN.md.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fp:
        json.dump(m, fp, indent=1)
        fp.write('\n')


main()
