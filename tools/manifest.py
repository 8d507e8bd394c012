#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech = {
 'T01': ('PBT: differential against brute-force search', 'Every search of generated lists, node sizes and query boxes agrees with a linear scan. Bounded by list size (100 explicit, some thousands patterned references).'),
 'T02': ('PBT: differential streaming vs in-memory search', 'Streaming search over generated indexes at generated stream positions with junk around agrees with the brute-force result; order by offset is asserted except for one listed finding.'),
 'T03': ('PBT: byte comparison with a reference encoder, round trip', 'Serialized bytes equal those of an independently written packed R-tree encoder; reference bytes load and behave the same.'),
 'T04': ('PBT: differential against exact big-integer arithmetic', 'Sizes agree with big-integer arithmetic over the full int range, concentrated at the overflow limits.'),
 'T05': ('PBT: permutation and order against a bit-at-a-time Hilbert curve', 'Output is a permutation in descending curve order; ties and cells whose floating-point scaling is ambiguous are accepted either way.'),
 'T06': ('PBT: reference model of boxes, metamorphic order of expansion', 'Expansion, bounds, width, height and text agree with a reference; NaN is outside the property.'),
 'T07': ('PBT: mutation-based robustness search with allocation measurement', 'Corrupt indexes made by structure-aware mutation; no panic, no hang, positions in range, bounded allocation.'),
 'T08': ('PBT: exhaustive fault injection per generated index', 'Every read, seek and write call and every byte position fails in turn for each generated index.'),
 'T09': ('PBT: index bytes of a big-endian build, run by an emulator, against the reference encoder; enumeration of architectures', 'An interpreter for big-endian MIPS (emu/mips.c) runs the harness built with GOARCH=mips, so the code for big-endian hosts runs as such a host would run it. File selection is type-checked for every architecture Go supports.'),
 'W06': ('PBT: copies of valid and damaged files compared with their source', 'Metamorphic: the source file is the oracle for what the writer writes from what the reader returned.'),
 'B01': ('PBT: the other checks\' generators and oracles in a big-endian build, run by an emulator', 'Everything the other checks do (except memory measurements and sizes beyond 2 GiB), at about a hundredth of the number of cases, with GOARCH=mips in the emulator emu/mips.c; and a comparison of what both kinds of host observe in the same generated cases.'),
 'R01': ('PBT: differential against an independent encoder over generated files', 'Generated and sample files are read with generated chunking, fragmentation and reader kinds; bytes are compared with what was encoded.'),
 'R02': ('PBT: differential against brute force over generated indexed files', 'Searches through seekable and non-seekable readers agree with a linear scan of the indexed boxes.'),
 'R03': ('PBT: stateful model-based histories', 'Generated call histories are compared with a cursor model of the reader after every call.'),
 'R04': ('PBT: truncation enumeration per generated file', 'Every proper prefix (structural neighbourhoods for large files) of each generated file is read in one of six ways.'),
 'R05': ('PBT: structure-aware mutation fuzzing', 'Raw bytes, edited files and crafted pathological tables through every reader call and the text summaries; no panic, hang or stack exhaustion.'),
 'R06': ('PBT: exhaustive fault injection per generated history', 'Every read and seek call and byte position fails in turn for each generated history.'),
 'R07': ('PBT: enumeration of magic bytes and generated neighbours', 'All single-byte changes of the magic number and generated prefixes, through the magic check and the header reader.'),
 'R08': ('PBT: generated declared sizes with allocation measurement', 'Declared lengths and counts without the data to match; allocation is measured and must stay in proportion.'),
 'W01': ('PBT: byte comparison with a reference layout, round trip', 'Written bytes equal the reference layout; reading back gives the same model; tables come from four different origins.'),
 'W02': ('PBT: round trip, differential against brute force over geometry extents', 'Auto-indexed files are searched and compared with a linear scan of the extents of all nested parts.'),
 'W03': ('PBT: stateful model-based histories', 'Generated call histories on the writer are compared with a model after every call.'),
 'W04': ('PBT: exhaustive fault injection per generated history', 'Every write call and byte position fails in turn; counts, errors and prefixes are checked.'),
 'W05': ('PBT: generated unsuitable tables against an independent suitability predicate', 'Zero values, nested tables, cut and edited buffers are handed to the writer; refused without output.'),
 'Q01': ('PBT: round trip of value sequences', 'Generated sequences of all types through one stream, interleaved and fragmented.'),
 'Q02': ('PBT: byte comparison with a reference encoding; write faults at every position', 'Bytes equal the reference encoding, reference bytes decode, write faults are passed on with exact counts.'),
 'Q03': ('PBT: reference model of property records', 'Generated schemas up to 65536 columns and records against what was encoded.'),
 'Q04': ('PBT: truncation enumeration, mutation, fault injection', 'Cuts, missing columns, unknown types, excessive lengths and stream faults at every position.'),
 'S01': ('PBT: exact text from a reference formatter', 'Generated headers and features; the text equals that of an independently written formatter.'),
 'F01': ('PBT: differential against an independent FlatBuffers encoder and decoder', 'Generated tables in many layouts through all accessors, constructors and builder functions.'),
 'F02': ('PBT: byte-exact mutation model; enumeration of type names', 'Generated mutation sequences; the whole buffer is compared with the expected bytes after each.'),
 'I01': ('PBT: generated interleavings of other checks\' cases, parallel runs under the race detector', 'Groups of generated uses are interleaved at every stream and API call, run in parallel, or share read-only objects; each is judged by its own oracle. Schedules are sampled, not enumerated.'),
 'P01': ('PBT: the other checks\' generators and oracles in a 32-bit build', 'Everything the other checks do, at about an eighth of the number of cases, with GOARCH=386, which this machine can run; and a comparison of what both kinds of host observe in the same generated cases. Other 32-bit architectures are only compiled (T09).'),
 'I02': ('PBT: stateful model-based histories with hostile callers', 'Generated histories during which what was passed or returned is overwritten; the models of the other checks go on to hold.'),
 'L01': ('PBT: reference models over sparse synthetic streams', 'Streams of up to many GiB are computed on the fly; generated offsets, lengths and counts lie around 2^31, 2^32 and beyond. Values of 4 GiB are few, because each needs that much memory.'),
 'I03': ('PBT: metamorphic: repetition elsewhere in memory, in another goroutine and in another process', 'Generated calls of all kinds are made three times within a process, and once more in another process, so that dependence on hash seeds or addresses shows.'),
 'R10': ('PBT: metamorphic and differential between ways of reading, over mutated files', 'Generated valid and damaged files and indexes; the ways of reading are compared with each other, search results also with the bytes at the offsets the index gives.'),
 'R11': ('PBT: model-based histories on files with generated damage', 'The cursor model of the other checks, with the damaged bytes as the contents.'),
 'R09': ('PBT: stateful model-based histories on a stream that knows what may be read', 'Per call, the ranges it needs are computed from the cursor model; any other read is a violation.'),
}
extra = os.path.join(root, 'tools', 'notes_extra.json')
if os.path.exists(extra):
    tech.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
notguided = {'I01', 'P01', 'B01', 'T09'}
fault = {'R04', 'R06', 'T08', 'W04'}
checks = []
for l in open(os.path.join(root, 'properties.jsonl')):
    i = json.loads(l)['id']
    t, n = tech[i]
    if i not in notguided:
        t = t.replace('PBT: ', 'PBT, random and coverage-guided: ')
    checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
                   'technique': t, 'level': 'fault_enumeration' if i in fault else 'exploration', 'level_note': n + ' It never establishes absence of a violation.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'The harness uses the exported API of /repo only, so there are no hooks. Known findings and repaired defects: KNOWN_FINDINGS.txt. Design: DESIGN.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
