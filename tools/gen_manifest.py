#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "independent reader as reference"
T = {
"C01": ("property-based testing (proptest): generated schemas and write histories; oracle: reference model of accepted points vs an independent TsFile reader",
        "Random search with shrinking over schemas, histories, page and block boundaries; trusts the independent reader."),
"C02": ("property-based testing (proptest): generated histories; oracle: independent strict byte-for-byte parser and reference scan/index agreement",
        "Random search; trusts the independent parser of the format."),
"C03": ("property-based testing (proptest): generated histories with extreme values; oracle: recomputed statistics",
        "Random search; floating sums compared up to rounding."),
"C04": ("property-based testing (proptest): generated schemas of up to thousands of devices and measurements, several node degrees; oracle: binary search descent by an independent reader",
        "Random search; small node degrees through the hook so that deep trees occur often."),
"C05": ("property-based testing (proptest): generated schemas and names; oracle: independent murmur hash and filter, plus found inputs hashing to i32::MIN",
        "Random search plus explicit rare inputs."),
"C06": ("stateful property-based testing (proptest): generated call sequences with invalid arguments; oracle: reference model of admissibility",
        "Random search over histories; error kinds compared when exactly one reason applies."),
"C07": ("metamorphic property-based testing (proptest): history with and without the refused calls; oracle: byte-identical files",
        "Random search over histories."),
"C08": ("metamorphic property-based testing (proptest): multi-point calls versus single writes; oracle: byte-identical files and reference model",
        "Random search over histories."),
"C09": ("metamorphic property-based testing (proptest): permuted schema construction and interleavings, new hash seeds; oracle: byte-identical files",
        "Random search; hash seeds vary per run, the failing case replays up to 20 times."),
"C10": ("property-based testing with fault injection (proptest): sinks taking parts and interrupting; oracle: byte-identical output",
        "Random search over histories and sink behaviours."),
"C11": ("property-based fault injection (proptest): sink failing at a generated byte or flush; oracle: fault-free run",
        "Random search over histories and fault positions, including all positions of small files."),
"C12": ("property-based testing (proptest): cuts of generated files at generated positions; oracle: reference model and independent scanner",
        "Random search over histories and crash points."),
"C13": ("property-based testing (proptest): generated columns; oracle: independent decoder and canonical-form recomputation",
        "Random search around block boundaries and overflowing deltas."),
"C14": ("metamorphic property-based testing (proptest): same history under both compressions; oracle: equal decompressed content",
        "Random search over histories."),
"C15": ("stateful property-based testing (proptest): calls after close; oracle: unchanged output and strict parser",
        "Random search over histories."),
"C16": ("property-based testing (proptest): generated path situations in a scratch directory; oracle: model of the file system and in-memory output",
        "Random search over path shapes; 'not permitted' is tried as an unprivileged user."),
"C17": ("property-based testing (proptest): generated long series and automatic flushes; oracle: bounds on page and group sizes and lossless recovery from what was delivered",
        "Random search; few but large cases because the thresholds are large."),
"C18": ("metamorphic property-based testing (proptest): shifted sink positions up to 2^63; oracle: independent reader and field-wise comparison",
        "Random search over histories and base positions."),
"C19": ("differential property-based testing (proptest): C functions driven in a child process versus the Rust writer; oracle: byte-identical files",
        "Random search over schemas, write sequences and handle orders."),
"C20": ("differential property-based testing (proptest): generated programs executed by a Python process with the wrapper classes versus the Rust writer; oracle: byte-identical files",
        "Random search over schemas, write sequences and life cycles."),
"C21": ("model-based property-based testing (proptest): generated builder programs; oracle: reference map of devices and measurements",
        "Random search over builder histories."),
"C22": ("property-based testing (proptest): generated schemas and registration sequences; oracle: independent log decoder with its own CRC-32",
        "Random search over schemas and sequences."),
"C23": ("property-based testing with fault injection (proptest): generated receivers on the loopback network; oracle: expected acceptance and recorded handshake",
        "Random search over receiver behaviours; loopback TCP."),
"C24": ("property-based testing with fault injection (proptest): generated files and receivers on the loopback network; oracle: recorded session versus model of the protocol",
        "Random search over files, schemas and faults at every step; loopback TCP."),
"C25": ("property-based testing (proptest): generated calls, replies and malformed messages over in-memory transports; oracle: reference of arguments and results",
        "Random search over calls and replies."),
"C26": ("property-based testing (proptest) plus exhaustive enumeration of all one-byte codes; oracle: independent variable-length coder and code tables",
        "All bytes exhaustively; numbers by random search biased to boundaries, and all 2^32 in the thorough tier."),
"C27": ("stateful metamorphic property-based testing (proptest): several generated histories interleaved in one thread or run in threads, with failing and abandoned writers; oracle: each history run alone, in a new thread or process",
        "Random search over histories and interleavings; thread schedules are those of the operating system."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
claimed = [p for p in props if p in T and (len(sys.argv) < 2 or p in sys.argv[1].split(","))]
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "hooks": {"guard": "--cfg verif_hooks",
           "enable": "RUSTFLAGS=\"--cfg verif_hooks\" cargo build --release in /verif/harness, a crate with a path dependency on /repo/tsfile-writer (done by build.sh)",
           "source_commits": ["c65012d", "27bcf6d"]},
 "checks": [{"property": p, "quick_cmd": "./check.sh %s" % p, "thorough_cmd": "./check.sh %s thorough" % p,
             "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in claimed],
 "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in claimed],
 "notes": "Every check builds /verif/harness against /repo's working tree. Replay a failure with target/release/harness replay <file>.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
