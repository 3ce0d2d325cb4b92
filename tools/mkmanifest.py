#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, subprocess

HOOK = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'],
                      capture_output=True, text=True).stdout.split()

T = {
 'C01': ('stateful property-based testing against a bit-array model', 'random buffers, limits and read sequences; every value, position and failure compared with bits taken by index'),
 'C02': ('stateful model-based testing (single-position model)', 'random histories of reads, seeks, bit seeks and alignments, cross-checked after every operation'),
 'C03': ('round-trip and differential property testing', 'encode/decode round trips at all widths and offsets, cut encodings, and arbitrary bits against an independent decoder'),
 'C04': ('property-based testing against a bit-array model', 'typed reads over all integer types, widths and positions'),
 'C05': ('round-trip property testing with a structured bitstream generator', 'random trees under random legal encodings, read back entry by entry'),
 'C06': ('metamorphic property testing (two encodings of one content)', 'the same content encoded twice, independently; entries and mapped modules compared'),
 'C07': ('stateful model-based testing of abbreviation scoping', 'random histories of scopes and definitions; unique record codes reveal which definition was applied'),
 'C08': ('round-trip and fault-injection property testing of containers', 'raw and wrapped streams, and inconsistent headers'),
 'C09': ('fuzzing (random, mutation and grammar based) with resource bounds as the oracle', 'panics, aborts, stack overflow, hangs, steps and peak allocation observed per input'),
 'C10': ('fault-injection property testing and differential fuzzing against an independent decoder', 'one forbidden construct at a random point; and mutated or hostile streams decoded by both'),
 'C11': ('property testing over cut points (crash points)', 'every word boundary of generated streams, and mapped modules cut inside their blocks'),
 'C12': ('round-trip property testing with a structured bitcode generator', 'random modules of known content with unrelated material, mapped and compared'),
 'C13': ('model-based testing of top-level block sequences', 'random sequences of top-level blocks against a grouping model'),
 'C14': ('fault-injection property testing', 'well-formed modules with one injected defect must be refused, and map without it'),
 'C15': ('round-trip and fault-injection property testing of type tables', 'random type graphs against a model of the table'),
 'C16': ('round-trip and fault-injection property testing of attribute blocks', 'random groups and lists against the recorded attributes'),
 'C17': ('round-trip and fault-injection property testing of function records', 'random records in random tables against independent decoding tables'),
 'C18': ('round-trip and fault-injection property testing of alias and COMDAT records', 'random records in random tables against independent decoding tables'),
 'C19': ('property-based testing against a slice model', 'random tables and references through mapped modules'),
 'C20': ('differential property testing against an independent data layout parser', 'grammar-generated and mutated layout strings'),
 'C21': ('stateful model-based testing of alignment tables', 'random update sequences against a map'),
 'C22': ('exhaustive and random property testing of conversions', 'all 8-bit inputs, all powers of two and their neighbours, random 64-bit values'),
 'C23': ('property-based testing against an independent statement of the rules', 'random nested types in every role'),
 'C24': ('exhaustive property testing against an independent table', 'all codes times random types'),
 'C25': ('exhaustive property testing against independent tables', 'all small values and random 64-bit values for every identifier family'),
 'C26': ('fuzzing (random, mutation and grammar based) with resource bounds as the oracle', 'panics, aborts, stack overflow, hangs and peak allocation observed per input'),
 'C27': ('differential property testing against the installed LLVM tools', 'generated IR assembled by llvm-as, entries compared with llvm-bcanalyzer, mapped modules with the source'),
 'C28': ('stateful, schedule and metamorphic property testing (interleaved, repeated and concurrent readers)', 'several inputs read step by step in random interleavings, out of reused buffers, and in threads; each result compared with the known one'),
}

import re
mod = open('/verif/harness/src/checks/mod.rs').read()
have = re.findall(r'::(C\d\d)', mod)
m = {
 'version': 1,
 'setup_cmd': './check.sh build',
 'hooks': {
  'guard': 'cfg(mollusc_verif)',
  'enable': 'RUSTFLAGS="--cfg mollusc_verif" (check.sh builds the harness and its path dependencies on /repo with it)',
  'source_commits': HOOK,
 },
 'checks': [
  {'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
   'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]}
  for i in sorted(have)],
 'not_applicable': [],
}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m['not_applicable'] = [{'property': p, 'reason': 'its check is still being built'} for p in props if p not in have]
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(have), 'checks')
