#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property -> (technique, level note)
CHECKS = {
    "C01": ("property-based testing: import then read back (round trip), by visit and by walk, against the content itself",
            "Random content, chunk sizes and branching factors, read back by the crate's file visit and walk. Sampled, not exhaustive; trusts proptest and the harness."),
    "C02": ("property-based testing: differential against an independent model of the balanced layout, byte for byte",
            "Sizes concentrate on the boundaries of layers; every block is compared with an independently encoded reference tree. Sampled; trusts the harness' model."),
    "C03": ("property-based testing: metamorphic, any split of the input into pushes gives the same blocks",
            "Random contents, settings and push patterns with empty and oversized pushes, compared with a single full push. Sampled."),
    "C04": ("property-based testing: every emitted block re-hashed, every recorded size recomputed by an independent strict decoder",
            "File imports and directory builds. Sampled; trusts sha2-256 of the multihash crate."),
    "C05": ("model-based property testing: range visits of generated file trees against slices of the content",
            "Random trees, ranges (reversed, empty, beyond the end) and caches; files beyond 4 GiB through shared subtrees. Sampled."),
    "C06": ("model-based property testing: pending links of file visits against a reference traversal",
            "Random trees and ranges; blocks which only touch the range are allowed either way. Sampled."),
    "C07": ("property-based testing: generated tree shapes and size conventions against their concatenated leaves",
            "Random trees over all legal shapes and ways of recording sizes. Sampled."),
    "C08": ("stateful model-based testing of the directory builder against a map of paths",
            "Random operation histories; the built tree is decoded by an independent strict reader. Sampled."),
    "C09": ("stateful model-based testing of builder operations, valid and not, against a reference model; permutations of a history",
            "Random histories with invalid paths, duplicates and conflicts. Sampled."),
    "C10": ("model-based property testing: directory blocks against independently encoded ones, size limits at and around the block size",
            "Random trees, CID kinds and limits. Sampled."),
    "C11": ("property-based testing: lookups in one block against a list model",
            "Random links, names, duplicates, hashes which are no CIDs. Sampled."),
    "C12": ("model-based property testing: sharded lookups against a reference shard layout",
            "Random shards up to thousands of entries, deep nesting, replaced buckets. Sampled; trusts the harness' murmur3."),
    "C13": ("model-based property testing: walks against a reference walk over generated trees",
            "Random mixed trees; every step's kind, path and CID compared. Sampled."),
    "C14": ("model-based property testing: file segments and pending links of walks against a reference walk",
            "Random mixed trees. Sampled."),
    "C15": ("structured fuzzing: adaptive hostile block servers, mutations of valid trees and random bytes against every reading entry point",
            "Oracle: no panic (debug assertions and overflow checks on), displayable errors, stop after an error, usable results. Sampled; a call that never returns ends the run without a verdict."),
    "C16": ("fault injection: one generated rule-breaking change at a random node of a generated tree, expected error from a table",
            "Walks, visits, resolves and sharded lookups; everything before the change is compared with the reference. Sampled over faults and positions."),
    "C17": ("property-based testing: independent wire-level encoder and three-valued lenient decoder (differential), canonical re-encoding (round trip)",
            "Random messages, field orders, unknown fields, overlong varints, damaged bytes. Sampled."),
    "C18": ("property-based testing: symlink blocks against an independent encoding, read back by walks (round trip)",
            "Random targets with lengths around the varint boundaries. Sampled."),
    "C19": ("property-based testing: metadata through builder and readers against the generated values",
            "Full value ranges of mode and modification time, random trees. Sampled."),
    "C20": ("property-based testing: data accessors against an independent encoder and lenient decoder",
            "Random field orders, empty and repeated data, damaged bytes, several block types. Sampled."),
    "C21": ("property-based testing: differential, random histories of reads with one shared cache against the same reads without",
            "Histories include failing reads of every kind. Sampled."),
    "C22": ("metamorphic property testing: every path a walk reports resolves to the reported CID and nothing else does",
            "Generated trees and trees made with the crate itself. Sampled."),
    "C23": ("fault injection: unusable or repeated links at random nodes, error fields compared with the injected link",
            "Resolve, sharded lookup, visit and walk. Sampled."),
    "C24": ("structured fuzzing with an allocation oracle: hostile blocks to every reading entry point, memory per call against the bytes given",
            "A counting allocator measures each call; at most 16 KiB plus 512 times the input (the worst measured is 79 times). Sampled."),
    "C25": ("metamorphic property testing: runs with values formatted and accessors called at random moments against the same runs without",
            "Imports, builder histories, visits, lookups, walks, failing ones among them; also writers which fail. Sampled."),
    "C26": ("fault injection: unusable link names at random directory, shard and bucket blocks of generated trees, exact error and prefix oracle",
            "All kinds of unusable names, up to three in a block; everything before it is compared with the reference walk. Sampled."),
    "C27": ("model-based property testing: trees assembled with every producer and read back with every reader (round trip), against what was put in",
            "Random paths, contents, settings, nesting of finished trees. Sampled."),
    "C28": ("stateful property testing over schedules: operations in progress interleaved call by call (and over threads) against each run alone (differential)",
            "Two to six visits, walks, lookups, imports and tree constructions, some failing or dropped, with shared or own caches. Sampled; calls do not overlap in time."),
    "C29": ("model-based property testing of the programs as processes, over generated block stores on disk with generated faults, against outputs computed from the model",
            "get, cat, resolve and add, built from /repo/examples. Sampled; one block missing or broken at a time."),
}

def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    built = set(open(os.path.join(HERE, "harness/src/main.rs")).read().split('"')[1::2])
    checks, rest = [], []
    for p in props:
        i = p["id"]
        if i in built:
            t, note = CHECKS[i]
            checks.append({
                "property": i,
                "quick_cmd": f"bash check.sh {i}",
                "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                "technique": t,
                "level": "exploration",
                "level_note": note,
            })
        else:
            rest.append({"property": i, "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "bash check.sh build",
        "checks": checks,
        "not_applicable": rest,
        "notes": "One harness crate (harness/) drives the public API of /repo with proptest generators; no hooks are needed. See DESIGN.md and KNOWN_FINDINGS.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
