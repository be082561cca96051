#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': ('stress and mutation workload under panic, CPU, memory and result monitors in a watched worker process',
         'Inputs are sampled (valid, mutated, random, adversarially nested and long); resource limits are generous constants.'),
 'C02': ('differential runs over entry points and chunking readers, file descriptor monitor',
         'Chunkings are sampled, with exhaustive single splits for small inputs.'),
 'C03': ('fault-injecting readers at every byte offset with a call-bounding monitor',
         'Every offset of sampled modules times failure modes; modules are sampled.'),
 'C04': ('metamorphic layouts of random modules, ASTs compared',
         'Layouts and modules are sampled; trusts the printer of lexical items.'),
 'C05': ('generated AST printed as text, parsed back and compared (round-trip oracle)',
         'Modules are sampled; trusts the printer, which was written from the grammar of X.680 as implemented.'),
 'C06': ('literal generator with exact rational arithmetic as oracle over parsed values',
         'Literals are sampled, with boundary cases; trusts math/big.'),
 'C07': ('mutation workload against an independent lexer and Earley recognizer',
         'Texts are sampled; trusts the recognizer for the implemented notation.'),
 'C08': ('error placement workload with independent line counting and cause prediction',
         'Positions and layouts are sampled; trusts the recognizer for the first item that cannot continue.'),
 'C09': ('generator runs over arbitrary parsed modules under panic, output and syntax monitors',
         'Modules are sampled, with small name pools that make cycles and dangling references common.'),
 'C10': ('go/types as monitor on generated files of random valid modules',
         'Modules are sampled; trusts go/types.'),
 'C11': ('independent model of the expected Go types compared with go/types view of generated files',
         'Modules are sampled; the model is written from the documentation.'),
 'C12': ('independent model of the expected struct tags, metamorphic rewriting of tagging defaults',
         'Modules are sampled; the model is written from X.680 and the encoding/asn1 documentation.'),
 'C13': ('compiled generated packages run on random values against an independent DER encoder',
         'Modules and values are sampled within the documented limits of encoding/asn1; trusts encoding/asn1.'),
 'C14': ('model of CHOICE mapping against go/types view; compiled round trips of every alternative',
         'Modules and values are sampled.'),
 'C15': ('fault planting: unsupported constructs planted at random positions of supported modules, error and output monitor',
         'Positions are sampled, every construct at every kind of position.'),
 'C16': ('metamorphic permutations and reference chains, generated declarations compared',
         'Permutations and chain lengths are sampled.'),
 'C17': ('recorded call histories replayed in one and several processes, outputs and deep snapshots compared',
         'Histories are sampled.'),
 'C18': ('race detector on concurrent parse and generate stress, results compared with sequential ones',
         'Schedules are those that occur under stress; the race detector sees unsynchronised accesses of executed paths.'),
 'C19': ('the built command run on sampled invocations in a scratch directory, stdout, stderr, status and files compared with the library',
         'Invocations are sampled over all forms and failure kinds.'),
 'C20': ('the built command run on random dumps, output compared byte for byte; corrupted columns and failing outputs',
         'Dumps are sampled.'),
 'C21': ('fault-injecting writers at every output offset, return value and accepted bytes monitored',
         'Every offset of sampled outputs times failure modes.'),
 'C22': ('pairs of generated packages for both representations compared through go/types',
         'Modules are sampled.'),
 'C23': ('lookups compared with a reference search over random assignment lists',
         'Lists and names are sampled.'),
 'C24': ('compiled example packages run on random values and freshly signed certificates, crypto/x509 as reference',
         'Values are sampled; trusts crypto/x509 and encoding/asn1.'),
 'C25': ('compiled generated packages print their variables, compared with exact expected values',
         'Modules are sampled.'),
 'C26': ('files and return values of MarshalToFile monitored over random values and target states',
         'Values and file states are sampled; write failures through RLIMIT_FSIZE, closed pipes and directories.'),
 'C27': ('random sentences of an independent grammar of the notation, directed at every rule in turn, parsed; the parser must accept',
         'Sentences are sampled, every rule many times; trusts the grammar written from X.680.'),
 'C28': ('exported methods called on every node of random trees, monitored against the structure of the node; generator run on trees made by hand and parsed',
         'Trees and numbers are sampled.'),
}
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(here, 'harness/checks', p.lower() + '.go')):
        t, n = T[p]
        checks.append({'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough',
                       'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': p, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
