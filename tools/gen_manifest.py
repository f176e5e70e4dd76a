#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Technique and note of each check, in one place."""
import json
T = {
"C01": ("property-based fuzzing: token soup, mutated valid streams, hostile packets; well-formedness oracle", "Searches structured and mutated byte streams for a panic, an ill-formed item, too many items or an item after the end; overflow checks on. Termination is judged by a deterministic work budget. Does not cover every byte string."),
"C02": ("property-based testing against an independent encoder (round trip)", "Every run length of every colour is enumerated; geometry, line structure and field layout are sampled. Trusts the harness' encoder of the DVD format."),
"C03": ("property-based testing, metamorphic: any packaging against the plainest one", "Samples fragmentation, headers, stuffing and junk; the reference is the library on plain packaging plus the model."),
"C04": ("property-based testing against exact integer arithmetic", "33-bit stamps and 16-bit dates sampled with boundary weights; error below 1 ms required as stated."),
"C05": ("property-based testing against a reference interpreter of control sequences", "Samples chains of sequences and commands; trusts the interpreter written from the rules."),
"C06": ("property-based fault injection into streams, model of the survivors as oracle", "Fourteen kinds of damage at every position of 2 to 8 subtitles, sampled."),
"C07": ("property-based testing against a reference reader of index text, with failing readers", "Samples line sequences, endings and values; trusts the reference reader."),
"C08": ("property-based testing: grammar-based texts and mutations against a reference parser", "Enumerates all two-digit pairs per channel position; samples the rest."),
"C09": ("property-based testing with enumeration of short contents", "All lengths around the magic numbers and single-byte changes of them are enumerated; longer contents sampled."),
"C10": ("property-based testing over generated file-system states", "Absent paths, folders, paths through files, odd names; root may read everything, so permissions are not exercised."),
"C11": ("property-based testing against a per-pixel reference", "Images built through the public constructor; six conversion functions."),
"C12": ("property-based testing against a per-pixel reference", "VobSub and PGS, borders up to some thousand pixels and any colours; grey levels enumerated."),
"C13": ("property-based fuzzing: segment soup, mutated valid streams, arbitrary pixel data", "As C01, for .sup streams, including the use of every accepted image. Overflow checks on."),
"C14": ("property-based testing against an independent encoder (round trip)", "Run lengths enumerated in every form; palettes, geometry, fragments and surrounding segments sampled."),
"C15": ("property-based testing, differential: times alone against times with images and a segment model", "Samples segment sequences."),
"C16": ("property-based testing, differential over reader buffering", "Samples chunk sizes (down to one byte) for valid and damaged streams and real files; the reference is the same bytes in one piece."),
"C17": ("crash-point enumeration over generated streams, prefix oracle", "Every cut position of every generated stream."),
"C18": ("fault enumeration over generated streams: every reader operation fails once or for good", "Every operation index of every generated stream, several error kinds; interrupted reads must be invisible."),
"C19": ("property-based fault injection into streams, model of the survivors as oracle", "Samples defects and positions."),
"C20": ("property-based testing of iteration histories against a reference run-length decoder", "Samples objects (well formed or not) and sequences of iterator calls."),
"C21": ("property-based testing against a per-pixel reference", "Samples objects and conversion functions with one to four channels."),
"C22": ("property-based testing with enumeration of 8-bit pixels", "All 8-bit pixels on a grid of compile-time thresholds; luminance-threshold pairs enumerated; other types sampled."),
"C23": ("property-based testing against exact integer arithmetic, with enumerated ranges", "All milliseconds near every boundary named in the check; the rest sampled."),
"C24": ("property-based testing: exact reference text and round trip", "64-bit millisecond values with boundary weights."),
"C25": ("property-based testing against a reference writer, read back by a reference reader", "Samples subtitle lists and texts."),
"C26": ("fault enumeration: a writer failing at every byte, short writes, interruptions", "Every failing position of every generated document."),
"C27": ("property-based testing over generated file-system states, read-back oracle", "Eight pixel formats; the tree is compared before and after. Permissions not exercised (root)."),
"C28": ("property-based testing with enumerated coordinate grids", "Exact arithmetic oracle; thorough enumerates every pair of one axis."),
"C29": ("property-based testing of operation interleavings, differential against decoding alone", "Interleavings of iterator steps are generated; operating-system thread schedules are only sampled."),
"C30": ("property-based fuzzing with allocation accounting", "Counts every allocation of the decoding thread; bound 40 MiB plus four times the input."),
"C31": ("property-based testing of whole programs: files in, texts and image files out, against the generating model", "Samples discs of a few subtitles; the parts are searched deeper by their own checks."),
"C32": ("property-based fuzzing of errors: fault values known by construction must be named", "The values are looked for as decimal or hexadecimal numbers in messages, or in public fields; wording is not judged."),
"C33": ("stateful property-based testing: scripts of iterator operations against a plain iterator over the same items", "Samples scripts up to eight operations and one consuming end."),
"C34": ("property-based testing: pairs of values that differ in one known part", "Copies and differences are made part by part; printing only has to succeed."),
"C35": ("stateful property-based testing with injected faults: sequences of skips, reads and decoding steps against a position and a slice", "Samples sequences of up to 14 steps; readers in memory, in files, in pieces, far from zero, failing."),
}
cmd = "./check.sh"
checks = []
for l in open('/verif/properties.jsonl'):
    i = json.loads(l)['id']
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick {cmd} {i}", "thorough_cmd": f"VERIF_TIER=thorough {cmd} {i}",
        "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh setup", "hooks": {"guard": "none", "enable": "No hooks: the checks use the public interface only.", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "VERIF_SEED seeds every search; replay a violation with ./check.sh ID --replay FILE. All checks build /verif/harness against /repo's working tree."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write("\n")
