#!/usr/bin/env python3
"""Rebuilds MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'runtime monitor: real decoder run on generated blocks, every texel compared online with an independent reference model; overflow-checked and release builds'
REFNOTE = 'Held on the executions generated (counts in the evidence); trusts the reference decoder written from the format specification (cross-validated against Pillow and original images where available).'
T = {
 'C01': ('hostile-input stress under panic, overflow, AddressSanitizer and CPU-time monitors', 'No panic, overflow, sanitizer report or runaway case on the executions generated, in three builds.'),
 'C02': ('contract monitor: Ok/Err and untouched-buffer oracle over generated buffer sizes, incl. overflowing ones', 'The Ok/Err oracle is exact; sampled and systematic boundary sizes.'),
 'C03': ('guard-zone and prior-content (poison) monitor around every decode, plus AddressSanitizer build', 'Every element outside the footprint is compared; two different prior contents expose reads of stale pixels.'),
 'C04': ('metamorphic monitor: image decode compared with tiling of single-block decodes', 'Relation checked on generated images; block contents judged by C05-C16.'),
}
for i in range(5, 17):
    T[f'C{i:02d}'] = (REF, REFNOTE)
T['C26'] = ('differential monitor between equivalent entry points', 'Relation checked on generated inputs.')
EXTRA = {
 'C17': ('header-query monitor against an independent header model over generated and mutated headers', 'Exact oracle for valid and invalid headers; held on the headers generated.'),
 'C18': ('generator/encoder with expected-output model: crunch files built with known blocks, decoder output compared pixel by pixel', 'Trusts the encoder model written from the crunch format; held on the files generated.'),
 'C19': ('generator/encoder with expected-output model: Unity crunch files built with known blocks, decoder output compared pixel by pixel', 'Trusts the encoder model written from the Unity crunch format; held on the files generated.'),
 'C20': ('generator/encoder with expected-output model: Unity crunch ETC files built with known blocks, decoder output compared pixel by pixel', 'Trusts the encoder model written from the Unity crunch format; held on the files generated.'),
 'C21': ('fault injection (bit flips, truncation, field edits) on generated crunch files under panic, allocation, CPU-time and AddressSanitizer monitors', 'No panic, sanitizer report, runaway or over-budget allocation on the faults generated.'),
 'C22': ('native 32-bit player and Miri (undefined-behaviour interpreter, big-endian s390x and x86-64 targets) replaying recorded decodes; every word compared with the recording', 'Native 32-bit runs cover hundreds of thousands of decodes; the interpreted big-endian and undefined-behaviour corpora are thousands.'),
 'C23': ('no-std/no-alloc build replaying recordings of the default build; counting-allocator monitor in both builds', 'Both feature sets are built without libc/std and run on the same generated inputs.'),
 'C24': ('histories, thread stress and ThreadSanitizer: shuffled and repeated decodes and concurrent decodes in five builds, each compared with a recorded baseline', 'Held on the histories and thread interleavings produced.'),
 'C25': ('the built Python extension driven with recorded and hostile calls: bytes, exceptions, reference counts and memory growth judged against the Rust decoders; Python debug heap and valgrind memcheck', 'Held on the calls generated.'),
}
EXTRA['C27'] = ('cost monitor: every call is run under callgrind on a painted stack with a counting allocator; instructions, heap peak and stack depth are judged against bounds and against the same blocks in other sizes and shapes', 'Deterministic counts; absolute bounds are ten and more times the measured ones, so only disproportionate cost is reported.')
EXTRA['C28'] = ('agreement monitor: the info query and both decoders run on the same well-formed, cut and damaged crunch files and their answers compared; release and overflow-checked builds', 'Every prefix of small files and sampled prefixes of larger ones; held on the files generated.')
EXTRA['C21'] = (EXTRA['C21'][0] + '; then a coverage-guided (libFuzzer) phase under AddressSanitizer', EXTRA['C21'][1])
for i in ['C01'] + [f'C{i:02d}' for i in range(5, 17)]:
    T[i] = (T[i][0] + '; thorough adds a coverage-guided (libFuzzer) phase', T[i][1])
claimed = [l.strip() for l in open(os.path.join(V, 'tools', 'claimed.txt')) if l.strip()]
T.update(EXTRA)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick python3 run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
                           technique=T[i][0], level='exploration', level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: every monitor observes the public API. Known findings and repairs: known-findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
