#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing which properties are claimed."""
import json, subprocess

TECH = "property-based testing: "
CLAIMS = {
 "C01": ("generated histories and update collections against an order-free join and a per-step reference model; exhaustive short update sequences",
         "Random + small exhaustive exploration; trusts the harness' own model of SWIM precedence."),
 "C08": ("generated histories; notification replay vs iter_members, reference model for Defunct/Rejoin, lock-step twin on AccumulatingRuntime",
         "Random exploration of single-instance histories; trusts the harness' reference model."),
}
CLAIMS["C09"] = ("generated histories over several generations per address, checked after every call against the notification-ordered identity chain of each address",
         "Random exploration of single-instance histories.")
CLAIMS["C10"] = ("generated self-referential histories; own incarnation read off a header before and after every call and compared with a reference model",
         "Random exploration of single-instance histories.")
CLAIMS["C11"] = ("generated suspicion timelines (decision table over every field, interleaved stale/crafted timers, histories) against a reference model of when a suspicion may become Down",
         "Random exploration of single-instance histories.")
CLAIMS["C12"] = ("generated probe rounds with every kind of evidence, fault and interleaving; reference model of the round and of the relays",
         "Random exploration of single-instance histories.")
CLAIMS["C13"] = ("generated call/timer histories; exactly-one-probe-timer invariant over every epoch, IncompleteProbeCycle only when an indirect-probe timer was withheld; exhaustive short sequences",
         "Random plus small exhaustive exploration; timers are outlived by at most 255 epochs, the bound the property states.")
CLAIMS["C14"] = ("generated member-list arrangements and cursors, then long stable windows; every sub-window of 2n-1 rounds must cover the n active members",
         "Random exploration up to 60 members, some crowds up to 520.")
CLAIMS["C15"] = ("generated histories of accepted updates, superseding updates and datagrams of every kind and size against a shadow backlog",
         "Random exploration of single-instance histories.")
CLAIMS["C16"] = ("generated items, handler relations, recipient predicates and packet sizes against a shadow backlog; emitted datagrams are handed to a receiver",
         "Random exploration of single-instance histories, failing handlers and broken-off datagrams included.")
CLAIMS["C07"] = ("generated histories on several codecs, packet sizes and handlers; every datagram parsed by an independent grammar parser and fed to a fresh peer",
         "Random exploration of single-instance histories.")
CLAIMS["C17"] = ("twin runs: generated histories with and without inserted rejected inputs must produce identical effects and results",
         "Random exploration of single-instance histories.")
CLAIMS["C18"] = ("generated cluster arrangements with timers held and one injected datagram; exhaustive and random delivery orders; bounded deliveries and replies per datagram",
         "Random exploration up to a handful of instances.")
CLAIMS["C19"] = ("generated histories with address changes and own-address records; destination of every datagram against the current address",
         "Random exploration of single-instance histories.")
CLAIMS["C20"] = ("generated headers and members over several identity shapes and codec configurations: round trip in a longer buffer, every short buffer, every truncation, foreign bytes; replies at every packet size",
         "Random exploration, plus every incarnation and probe number exhaustively for one shape.")
CLAIMS["C06"] = ("API, timer, byte, codec-failure and configuration fuzzing with every call under catch_unwind and an allocation guard, in three builds; sizes beyond 16 bits; configuration constructors over the u32 range",
         "Random exploration; constructors exhaustively in the thorough run.")
CLAIMS["C02"] = ("simulated clusters of real instances on a virtual clock without faults: generated sizes, join orders, contacts, latencies, configurations; nobody may be suspected, everybody found within a linear bound",
         "Random exploration up to 30 members; one finding recorded.")
CLAIMS["C03"] = ("simulated clusters on a virtual clock: every subset of members crashes or leaves at every event of small clusters, generated sizes, configurations and instants otherwise; survivors' MemberDown timed against the bound",
         "Random exploration up to 24 members, exhaustive instants for 2 to 4 on fixed seeds.")
CLAIMS["C04"] = ("simulated clusters on a virtual clock losing one datagram: every one of the first hundred in small clusters, generated ones otherwise; nobody may be declared Down, everybody Alive again within a bound",
         "Random exploration up to 20 members, exhaustive datagram indexes for 2 to 4 on fixed seeds.")
CLAIMS["C05"] = ("simulated clusters on a virtual clock, partitioned (every shape up to 5 members) until both sides declare each other Down, then healed; everybody back under the current identity within a bound, Rejoin then Active, never Defunct",
         "Random exploration up to 20 members.")
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH + t,
            "level": "exploration",
            "level_note": note,
        })
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check still being built"} for p in props if p not in CLAIMS],
    "notes": "No hooks in /repo: everything is observed through the public API. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
