#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in properties.jsonl that has an entry in T."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "S01": ("runtime monitor: parser contract (result xor error, input untouched, re-usable result) over generated, mutated and spliced messages, watchdog for hangs", ""),
 "S02": ("runtime monitor: differential oracle between an independent reader of the generated content and the parser, over many equivalent spellings", ""),
 "S03": ("runtime monitor: render/parse/render round-trip oracle over generated messages, cross-read by an independent SIP reader", ""),
 "S04": ("runtime monitor: injection and recovery oracle over hostile display names and parameters, cross-read by an independent SIP reader", ""),
 "S05": ("runtime monitor: component round-trip oracle over generated URIs, exhaustive per byte per component", ""),
 "S06": ("runtime monitor: truncation oracle, every cut point of generated messages and mis-declared lengths", ""),
 "S07": ("runtime monitor: decimal oracle over numbers around every field limit in every numeric position", ""),
 "S08": ("runtime monitor: aliasing oracle, structural dump before and after every mutation through a copy", ""),
 "D01": ("runtime monitor: parser contract over generated, mutated and spliced session descriptions, watchdog for hangs", ""),
 "D02": ("runtime monitor: differential oracle between planted line content and the parsed description, plus planted defects that must be refused", ""),
 "D03": ("runtime monitor: render/parse round-trip oracle over generated descriptions", ""),
 "P01": ("runtime monitor: exhaustive comparison with an independent G.711 reference", ""),
 "P02": ("runtime monitor: saturating-sum oracle with guard pages and canaries around frames at every alignment", ""),
 "P03": ("runtime monitor: statistical monitors of level, mean, spread, correlation; reproducibility oracle", ""),
 "R01": ("runtime monitor: bit-layout oracle, exhaustive first bytes, generated headers", ""),
 "R02": ("runtime monitor: online RTP stream checker on captured packets, race detector", ""),
 "R03": ("runtime monitor: online telephone-event checker on captured packets, race detector", ""),
 "R04": ("runtime monitor: exactly-once in-order delivery checker under hostile packet mixes, race detector", ""),
 "R05": ("runtime monitor: goroutine, descriptor and port leak monitors over session life cycles with injected socket faults, race detector", ""),
 "C01": ("runtime monitor: trace-specification checker on reported states against a scripted peer's log, race detector", ""),
 "C02": ("runtime monitor: ACK conservation checker on the peer's packet log, race detector", ""),
 "C03": ("runtime monitor: timed trace checker on retransmissions seen by silent peers, race detector", ""),
 "C04": ("runtime monitor: order and transaction checker over a scripted DNS server and several scripted peers with injected faults, race detector", ""),
 "C05": ("runtime monitor: message checker on CANCEL and BYE seen by scripted peers in every phase, race detector", ""),
 "C06": ("runtime monitor: request/response conservation checker on scripted in-dialog requests, race detector", ""),
 "C07": ("runtime monitor: media-report and re-INVITE answer checker on scripted peers, race detector", ""),
 "C08": ("runtime monitor: hostile datagram injection with crash, race and call-state oracles", ""),
 "C09": ("runtime monitor: redirect trace checker over chains and loops of scripted peers, race detector", ""),
 "C10": ("runtime monitor: channel-closure, goroutine and descriptor leak monitors over every way a call can end, race detector", ""),
 "C11": ("runtime monitor: completeness, preservation and reachability checker on INVITEs captured at scripted servers on several local addresses, race detector", ""),
 "C12": ("runtime monitor: per-call history checker over many simultaneous calls with cross-delivered messages and stalled readers, race detector", ""),
 "T01": ("runtime monitor: delivery order and content-stability checker on recorded datagrams, race detector", ""),
 "T02": ("runtime monitor: packet capture oracle on several sockets with forged Via headers, race detector", ""),
 "T03": ("runtime monitor: differential oracle against an independent routing model, cross-checked on the wire", ""),
 "T04": ("runtime monitor: completeness and preservation oracle on captured requests", ""),
 "T05": ("runtime monitor: hop-limit trace checker on captured requests", ""),
 "T06": ("runtime monitor: differential oracle against an independent matching predicate over near-miss message pairs", ""),
 "T07": ("runtime monitor: hop-by-hop trace checker on responses travelling back through chains of transports, differential oracle against a routing model, race detector", ""),
 "T08": ("runtime monitor: message log compared packet by packet with the traffic the peers recorded, clock window on stamps, differential oracle on everything else, race detector", ""),
 "T09": ("runtime monitor: model-based oracle on built messages, trace checker on the same messages as they arrive at recording peers, mutation watch on their sources, race detector", ""),
 "E01": ("runtime monitor: end-to-end conservation and order checker on everything said and heard in complete calls, stream continuity checker at the peers, leak monitor, race detector", ""),
 "E02": ("runtime monitor: the real program as a process with preloaded stand-ins for sound and terminal, end-to-end conservation and order checker between those and the peers, exit status and device usage monitors, injected device and socket faults and signals, race detector", ""),
 "U01": ("runtime monitor: uniqueness and character-set monitors on identifiers drawn by many goroutines, race detector", ""),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
import subprocess, re
have = set(re.findall(r'ID:\s*"([A-Z]\d\d)"', "".join(open(os.path.join(root, "harness/checks", f)).read() for f in os.listdir(os.path.join(root, "harness/checks")))))
NA = {}
checks, na = [], []
for i in ids:
    if i in have and i in T:
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": T[i][0],
            "level": "exploration",
            "level_note": T[i][1] or "Oracles watch executions of the real code on seeded workloads; see DESIGN.md for the workload, the oracle and its limits.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
