#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "differential testing of generated packet streams against an independent reference decoder"
T = {
 "C01": "fuzzing: structured, mutated and raw inputs under memory and time limits",
 "C02": "property-based testing: reference framing and re-encoding (metamorphic) relation",
 "C03": "property-based testing: every cut point of generated streams, prefix relation",
 "C04": "property-based testing: generated bodies cut at every field, reference decoder as oracle",
 "C05": "property-based testing: metamorphic relation dump(armor(x)) = dump(x)",
 "C06": "property-based testing: generated corruptions of armored texts, error-or-equal oracle",
 "C07": REF, "C08": REF, "C09": REF, "C10": REF, "C11": REF, "C12": REF,
 "C13": "property-based testing: compression round trip, corruptions, expansion limit; reference decoder as oracle",
 "C14": "property-based testing: metamorphic relation between option sets plus reference decoder",
 "C15": "property-based testing: independent calendar arithmetic over times, zones and histories",
 "C16": "property-based testing: round trip of generated item trees through JSON and text",
 "C17": "model-based testing of generated histories and parallel runs (race detector)",
 "C18": "property-based testing: generated deliveries and read faults, equality with one-piece delivery",
 "C19": "model-based testing of generated operation sequences against an ideal cursor",
 "C20": "property-based testing with a scripted server: generated requests, responses and faults",
 "C21": "model-based testing with a scripted server: generated key lists, pages and faults",
 "C22": "model-based testing of generated command lines and sequences of invocations",
 "C23": "exhaustive enumeration of octet values in every position plus generated lists, independent name tables",
 "C24": "property-based testing: octet accounting over generated streams in debug mode",
}
NOTE = {
 "C01": "Explores bounded-size generated inputs (nesting to thousands of levels, lengths up to 2^32-1 claimed); a hang is a case that does not end in 60 s alone, a memory violation an allocation far above what the input accounts for.",
 "C13": "The expansion limit is tried at, just below and above 1 GiB; the rest with small streams.",
 "C17": "Schedules are those the Go scheduler and the race detector meet in the generated parallel runs; they are not enumerated.",
 "C20": "The network is a scripted server connected to the default HTTP transport, and a loopback server for the built binary.",
 "C21": "GitHub is a scripted server connected to the default HTTP transport.",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick bash check.sh " + i, thorough_cmd="VERIF_TIER=thorough bash check.sh " + i,
        evidence_file="evidence/%s.json" % i, technique=T[i], level="exploration",
        level_note=NOTE.get(i, "Random search over generated cases with fixed seeds; trusts the oracle described in DESIGN.md.") +
            " Absence of a violation is evidence for the explored cases only."))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
    notes="No hooks: the checks drive gpgpdump through its packages' exported functions, its command function and its built binary. "
          "Repaired defects are listed in known-findings.txt (fixed: lines); there are no open findings."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
