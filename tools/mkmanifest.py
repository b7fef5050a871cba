#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("crash, hang, stack and allocation monitors over generated hostile inputs", "8 MiB stack, 30 s CPU and 2 GiB per case; nesting depth probes of 100k in processes of their own"),
 "C02": ("generated documents with known events compared with the real parse", "document grammar of gen.rs"),
 "C03": ("planted faults and character-soup inputs judged by an independent reference recogniser", "reference parser refp.rs; strings it cannot classify are skipped and counted"),
 "C04": ("metamorphic monitor: comments inserted and removed at recorded construct boundaries", ""),
 "C05": ("recorded lookup calls and outputs compared with a reference expansion", ""),
 "C06": ("generated references in every construct; recorded lookups and event sequence compared with a marker-free parse", ""),
 "C07": ("generated section lists and modes judged by a reference keyword policy", ""),
 "C08": ("generated sections with adversarial bodies; extents compared with a reference scanner", ""),
 "C09": ("differential monitor between trimmed and verbatim parses", ""),
 "C10": ("differential monitor between normalizations", ""),
 "C11": ("differential monitor across parser options", ""),
 "C12": ("generated declarations and instructions compared verbatim with their source", ""),
 "C13": ("round-trip monitor print/parse over generated and parsed fragments", ""),
 "C14": ("exhaustive sweep over all characters plus generated strings through escape iterators", "every Unicode scalar swept; longer strings sampled"),
 "C15": ("generated event lists judged by an independent stack model of normalization", ""),
 "C16": ("random operation histories replayed on a sequential model", ""),
 "C17": ("generated values spelled as documents and read back into dynamic and static types", ""),
 "C18": ("metamorphic monitor: the same field as attribute and as child element", ""),
 "C19": ("crash, hang and visit-count monitors over random fragments and recording target types", "recursive target types over deep data are known findings"),
 "C20": ("planted inconsistencies in fragments read by target types that record what they read", ""),
 "C21": ("scalar texts judged by the standard library's own parsers", ""),
 "C22": ("generated enum values in every documented form between recorded neighbours", ""),
 "C23": ("equality, formatting, deserialization and pointer-range monitors over owned and borrowed forms", ""),
 "C24": ("history monitor: reused, shared and fresh parsers compared over random call sequences and threads", ""),
 "C25": ("error reports parsed back and checked against the input and a reference recogniser", ""),
 "C26": ("prefix/rest conservation monitor on every public combinator, with agreement between event and raw forms", ""),
 "C27": ("metamorphic monitor: unknown attributes, elements and text inserted between fields", ""),
 "C28": ("generated values spelled twice as source text under random configurations, read back through all three steps", ""),
 "C29": ("single faults planted in fitting documents; the error compared with the planted fault and the standard library's error", ""),
 "C30": ("seeded interleaving of operations at user callbacks, nested and on threads, compared with each operation alone; rendezvous of 32 threads", ""),
 "C31": ("self-describing values compared with the element tree; values read back through untagged, tagged and flattened types", ""),
}
have = set(os.popen(os.path.join(root, "harness/target/debug/mon") + " list").read().split())
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    t, n = T[i]
    note = "Held on the executions driven, sampled from seeded generators; says nothing about inputs not driven."
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                   "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": (n + ". " if n else "") + note})
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": []},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
