#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the LLVM IR (integer polyhedra, region memory, fixpoints at loop heads)'
BITS = 'bit-provenance dataflow over the LLVM IR'
EFF = 'points-to and effect analysis over the LLVM IR and call graph'
CHECKS = {
 'C01': (AI + ' with a wire-format automaton; ' + BITS, 'sound for every input within the stated contracts; no bound on lengths'),
 'C02': (AI + ' with a wire-format automaton', 'sound for every input within the stated contracts'),
 'C03': (AI + ' with a wire-format automaton', 'sound for every input and every sequence of handler results'),
 'C04': ('ranking functions over abstract loop states; stack and recursion rules over the call graph', 'decoding: a measure for every loop; stack: decoding and cursor iteration'),
 'C05': (AI + ' with a wire-format automaton; ' + BITS, 'sound for every input within the stated contracts'),
 'C06': (BITS, 'exhaustive partition of all values and of all encodings by length; every bit symbolic'),
 'C07': (AI + '; ' + BITS + '; table queries', 'every field type on every component: codec tables, decoder, encoder, field reader/writer; every bit symbolic for the codecs'),
 'C08': (AI + ' with an automaton of the encoded form', 'every type, label and packing; any number of values, any lengths'),
 'C09': (AI + ' with an automaton of the encoded form', 'every failing position of every encode call; invalid encoders'),
 'C10': (AI, 'all kinds of buffers, all ranges and sizes, every allocation outcome; no bound'),
 'C11': (AI, 'all operations on buffers, journals and encoders that allocate, resize or release'),
 'C12': (AI + '; call-site query for heap functions', 'all operations on buffers, journals and encoders; blocks tagged by allocator'),
 'C13': (AI, 'all ranges and sizes; a byte at an arbitrary position'),
 'C14': (AI, 'any number of records, all ranges and sizes, every allocation outcome'),
 'C15': (AI, 'every kind of handle times every position relative to one change, any sizes; sequences of two changes'),
 'C16': (EFF, 'sound for the whole API (field-sensitive inclusion-based points-to)'),
 'C17': (EFF, 'sound for the reading operations'),
 'C18': (AI + ' of part writes, clears and creations inside chains of length-prefixed fields', 'parts of every kind at any depth; surrounding fields of any size at any position; prefixes of any width'),
 'C19': (AI + ' of every operation with outdated handles', 'all operations on parts, fields, messages, cursors and oneofs; handles of any age with arbitrary offsets; any changes recorded in between'),
 'C20': (AI + ' with a ghost for failed internal steps', 'every internal step of every operation failing or succeeding in any combination'),
 'C21': (AI, 'every public operation with a handle parameter, any content of the invalid handle; debug dumps excluded'),
 'C22': (AI, 'tables of any size; chains of up to 3 (thorough: 5) extensions'),
 'C23': (AI, 'chains of up to 3 (thorough: 6) extensions'),
 'C24': (AI, 'tables of any size, every position'),
 'C25': (AI + ' with a model of the decoder', 'descriptions of any size with up to two (thorough: three) extensions, any number and order of fields, nesting followed for two levels'),
 'C26': (AI + ' over abstract field sequences', 'any number and order of fields, members and other oneofs; a witness field at any place; every erasure succeeding or failing'),
 'C27': (AI, 'all sizes and allocation outcomes; histories of two (thorough: three) operations over up to three live blocks'),
 'C28': (EFF, 'sound for the whole API'),
 'C29': ('syntax-tree and symbol queries over headers, sources and library definitions', 'every public declaration; every reference between objects'),
 'C30': (EFF, 'sound for the whole API'),
 'C32': (AI + ' with a wire-format automaton', 'arbitrary message bytes, every cursor position, outdated cursors; no bound on lengths'),
}
NA = {
}
PENDING = 'not claimed yet: the analysis for it is still being built'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 -m compileall -q sa check.py', checks=[], not_applicable=[])
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique='static analysis: ' + t, level='other', level_note=n))
        else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, PENDING)))
    m['notes'] = 'Every check compiles /repo\'s current sources to LLVM IR (or a clang AST) and analyses that; nothing of protobluff is run. See DESIGN.md.'
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')


main()
