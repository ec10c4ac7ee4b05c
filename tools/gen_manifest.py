#!/usr/bin/env python3
"""Writes MANIFEST.json.  Properties without an entry in CHECKS go to not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

CODEC = "runtime monitoring: reference-model oracle over executions of the real codec on generated, mutated and hostile inputs"
SESSION = "runtime monitoring: offline trace checkers over recorded histories of the real client against a mock server (deterministic executor, random schedules, in-memory transport with faults)"
CHECKS = {
    "C01": (CODEC, "sampled packets, an independent grammar and JSON parser as oracle"),
    "C02": (CODEC, "sampled near-misses of well-formed packets, an independent grammar as oracle"),
    "C03": (CODEC + "; panic, wedge and memory watch on every execution", "sampled hostile inputs, decoders and connected clients, with logging"),
    "C04": (CODEC, "sampled packets and serializable values of every serde data-model kind"),
    "C05": (CODEC, "sampled argument lists, dynamic and typed"),
    "C06": (CODEC, "failing serializers at sampled positions and depths; twin without the failure as oracle"),
    "C07": (CODEC, "differential: the same argument without attachments read by serde_json is the oracle"),
    "C08": (CODEC, "sampled message sequences against an explicit automaton"),
    "C09": (CODEC, "sampled payloads and open packets"),
    "C10": (CODEC, "sampled buffers and restriction sequences against Vec/String models"),
    "C11": (SESSION, "sampled sessions; every delivery in the recorded history is judged against the registrations"),
    "C12": (SESSION, "sampled sessions with registration changes at any moment; interval linearizability of deliveries"),
    "C13": (SESSION + "; deadlock watchdog", "sampled sessions whose callbacks, and other threads during them, use the client"),
    "C14": (SESSION, "sampled sessions; every acknowledgement callback run is matched with the acknowledgements sent"),
    "C15": (SESSION, "sampled sessions; every acknowledgement on the wire is matched with the replies made"),
    "C16": (SESSION, "sampled sessions; the messages the server parses are matched with the emissions recorded"),
    "C17": (SESSION, "sampled sessions; pings and pongs are counted at the peer"),
    "C18": (SESSION, "sampled sessions of binary packets, fragmented and interleaved with heartbeats"),
    "C19": (SESSION, "sampled connection attempts: server behaviour, transport faults, timing on a virtual clock"),
    "C20": (SESSION + "; virtual clock", "sampled sessions ended by close(), all ways of completing it"),
    "C21": (SESSION + "; fault injection", "sampled sessions ended by a failure of every kind"),
    "C22": (SESSION + "; ownership and heap accounting", "sampled sessions dropped at sampled moments"),
    "C23": (SESSION, "sampled URLs against an independent URL model; the dialled address and the handshake bytes are observed"),
    "C24": (SESSION, "sampled floods; the distance between cause and effect is measured on the recorded history"),
    "C25": ("runtime monitoring: AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri over every workload of the other properties, plus heap accounting of running sessions and UTF-8 validity of everything handed out", "sampled executions; each detector first has to find a deliberate fault; what the detectors observed is in the evidence per stage"),
    "C26": (CODEC, "sampled packets; the views are compared with each other and with a reference JSON parser"),
    "C27": ("runtime monitoring: processor time and allocation of the real code metered on the same operation at growing sizes, in the codec and inside sessions; online check that the growth stays proportional", "sampled operations and shapes at sizes 256 to 2^20; excess is confirmed by re-measurement at larger sizes before it counts"),
    "C28": ("runtime monitoring: a deterministic bystander (session or codec series) under the monitors of its own properties while other sessions and packets, failing ones included, run before, inside and beside it; what fails is repeated alone in a fresh process before it counts", "sampled bystanders, company and kinds of user code; what goes wrong alone as well belongs to other properties"),
}
NOT_APPLICABLE = {}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet: under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
