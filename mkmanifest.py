#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NA = {}
NOTE = {
 "C01": "Seeded search over configurations, byte orders, record streams and deliveries; every accessor compared with the model kernel that wrote the record.",
 "C02": "Seeded search over sample layouts, deliveries and byte orders; every accessor compared with the model kernel.",
 "C03": "Seeded search; trailers compared with the model, bodies with the library's own decode of the same record without its trailer.",
 "C04": "Seeded search over deliveries (pieces, borrowed or temporary, alignment, length hint, BufReader); differential against one aligned slice.",
 "C05": "Seeded search over mixed streams and over producer/consumer histories on a simulated ring buffer with overflow; positions, order, loss accounting.",
 "C06": "Source failure or end of data at a drawn byte of a drawn stream; differential against the same delivery without the failure.",
 "C07": "BufReader over a simulated reader with EINTR and short reads; differential against the calm reader.",
 "C08": "Arbitrary and damaged bytes, arbitrary attribute bits, failing sources; panics, aborts, source-call budget and hang watchdog.",
 "C09": "Stored bytes damaged by the simulator; every record compared with an independent reference decoder that also says which rejections are right.",
 "C10": "Hostile counts; peak of the simulated heap per parse call against bytes delivered or truthfully declared.",
 "C11": "Histories run twice on a simulated heap with different garbage, panics injected in source calls and visitors; canaries, quarantine, leak audit.",
 "C12": "Histories of clones, conversions, drops and source overwrites; copies re-read at drawn points.",
 "C13": "All entry points and partial visitors over the same record and delivery; differential, visit counting.",
 "C14": "Serialized attribute blocks under drawn delivery and truncation, then records under the resulting configuration; compared with the model.",
 "C15": "Drawn histories of double-ended iteration and lookups against a deque model, groups delivered by drawn plans.",
 "C16": "2-4 real threads with the baton passed by the simulator at every source call and callback, alternation, nesting; differential against each parser alone.",
 "C17": "Transient failures at drawn bytes and source calls, bounded retries; differential against the undisturbed delivery.",
 "C19": "Values and errors from drawn deliveries and failing sources rendered in drawn styles into writers that fail at drawn places; the text is read back and compared with the accessors and the injected cause.",
 "C20": "Drawn sequences of library types parsed bare from one stream, intact or damaged, under drawn deliveries; values, rejections and positions against the reference decoder.",
 "C21": "Drawn histories of parsing with, cloning, dropping, saving and restoring parsers over one stream through transient source failures; every clone against the reference decoder at its own place.",
 "C22": "A simulated writer hands over records, library types, attribute blocks and primitive items one at a time and waits for the reader; a source call for a byte it withholds, or a complete item that is not returned, is a violation.",
 "C18": "Drawn histories of primitive calls against a cursor over a byte vector.",
}
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules, deliveries and faults)",
        "level": "exploration",
        "level_note": NOTE[p] + " Sampled, not exhaustive; trusts the model/reference decoder (cross-checked against each other on every record) and assumes sources that obey the ParseBuf contract, on a little-endian 64-bit host.",
    })
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: ParseBuf, io::Read, the visitor and the global allocator are public seams. Replay a violation with: sim/target/release/pedsim replay FILE"}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
