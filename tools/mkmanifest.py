#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with seeded schedule and fault search"
TRUST = " Trusts libcrypto, the harness's reference model and the stand-ins for scrypt/bcrypt; a clean result covers the schedules explored, not all."
CLAIMS = {
 "C05": ("exploration", T + "; session world with attacker endpoints", "Every transition to active in every simulated run is checked against the recorded wire history and the verdicts given." + TRUST),
 "C06": ("exploration", T + "; session world, in-order-subsequence oracle", "Every delivered buffer is checked against the buffers its session partner submitted." + TRUST),
 "C07": ("exploration", T + "; session world, state-machine monitor inside the simulator", "Status, announcements, transmissions and deliveries are checked after every simulated step." + TRUST),
 "C08": ("exploration", T + "; fault-free network, bounded-steps liveness oracle", "Liveness is stated as progress within a bounded number of simulated steps on a working network." + TRUST),
 "C09": ("exploration", T + "; lossy stream world with a reference model of accepted packets", "Every decode in every simulated run is compared with the model." + TRUST),
 "C10": ("exploration", T + "; simulated disk with I/O faults and process death at I/O calls", "The simulated disk is compared with the model after every operation; crash means process death (no power loss model, the code never syncs)." + TRUST),
 "C17": ("exploration", T + "; stream world observing keys at the crypto engine boundary", "Keys of every packet are compared with an independent key schedule, captured state and heap are searched for earlier keys." + TRUST),
 "C01": ("exploration", T + "; accounts, devices and an untrusted message service", "Every packet delivered unaltered to a named recipient is decoded and compared with what was sent." + TRUST),
 "C02": ("exploration", T + "; message service that alters, forges, splices and replays packets", "Every accepted packet is checked against the recorded history of what its claimed sender encoded." + TRUST),
 "C03": ("exploration", T + "; recipient lists whose identities and keys change after validation", "Every encode is compared with a reference verifier written on libcrypto alone." + TRUST),
 "C04": ("exploration", T + "; key/IV pairs recorded at the libcrypto boundary over five worlds, with failing randomness", "Every encryption of every simulated run is checked; histories are per run, so reuse across processes is covered only through simulated restarts." + TRUST),
 "C11": ("exploration", T + "; restarts from stored bytes, altered exports", "Every restore is compared field by field and by behaviour with the state that was exported." + TRUST),
 "C12": ("exploration", T + "; accounts restored on further devices", "Devices of an account are compared by what they can do with each other's data, others' devices by what they cannot." + TRUST),
 "C14": ("exploration", T + "; hostile peers and stores, ASan/UBSan, leak, allocation and CPU budgets inside the simulator", "Structured and random hostile input under injected faults; one known finding is listed." + TRUST),
 "C15": ("exploration", T + "; copies at arbitrary points against never-copied replayed twins", "All copyable public kinds; equality is judged on public fields and on behaviour." + TRUST),
 "C16": ("exploration", T + "; search of everything emitted for the run's secrets", "Search for verbatim secrets of 12 bytes or more in everything a run emits." + TRUST),
 "C13": ("fault_enumeration", "deterministic simulation enumerating every allocation, randomness, engine and libcrypto failure point of scripted operations, plus seeded multi-fault search", "Every single fault point of every scenario is enumerated in a run of the quick check; combinations are sampled." + TRUST),
}
NA = {
 "C18": "Pure function of its inputs: no concurrency, time, I/O, randomness or multi-party behaviour for a simulation to control (its failure behaviour is covered by C13).",
 "C19": "Pure functions of their input: nothing for a simulation to schedule or fault (their failure behaviour is covered by C13, hostile input by C14).",
 "C20": "Pure functions of their inputs: nothing for a simulation to schedule (their failure behaviour is covered by C13, their use after restarts by C11).",
}
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIMS:
            lv, te, no = CLAIMS[i]
            m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i, "technique": te, "level": lv, "level_note": no})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
    m["notes"] = "No hooks in /repo: the seams are the crypto engine table, the transport callbacks, OpenSSL's RAND_METHOD and link-time wrapping. /repo commits are fix: commits only; see known-findings.jsonl."
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    print([i for i in ids if i not in CLAIMS])
