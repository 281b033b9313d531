#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with seeded fault injection"
# property -> (what is decided and against what; what it assumes)
CLAIM = {
 "C01": "Seeded simulation of two whole endpoints over a simulated byte stream; prefix and completeness oracles on every read. Sampling, not proof; threads interleave at statements and lock operations.",
 "C06": "Seeded simulation; an independent negotiation model predicts which configurations must complete; progress is judged when the network has delivered everything and nothing can run. Sampling, not proof.",
 "C02": "Seeded simulation with an attacker in the path that edits records and hellos; an independent negotiation model says what each end may believe; exporters compared; peers with the right keys (package ref) that choose what was not offered. Sampling, not proof; the attacker in the path has no keys.",
 "C03": "Seeded simulation of a mint client against servers that deviate (an independent endpoint with altered messages, replays, impostors with wrong certificates or keys); an independent reading of the messages exchanged decides whether completion was justified. Sampling, not proof.",
 "C04": "Seeded simulation of a mint server against clients that deviate (an independent endpoint with altered messages, replays, impostors with wrong certificates, keys or tickets); an independent reading of the messages exchanged decides whether completion was justified. Sampling, not proof.",
 "C10": "Seeded simulation of connections whose client writes before, during and after the handshake and whose server reads at any time, with disagreeing keys and configurations, tampering, datagram loss and an independent peer; a model of the negotiation says whether the data is taken, and what is read is compared with what was written. Sampling, not proof.",
 "C11": "Seeded simulation of series of connections of one client to one server, TLS and DTLS, with clocks that are apart and jump, stores that lose, roll back or alter entries between connections, aborted connections and long pauses; a model of the two stores and clocks says when a ticket leaves and whether it is used. Also against an independent server that issues tickets of all lifetimes and an independent client that offers several. Sampling, not proof.",
 "C12": "Seeded simulation of servers that demand cookies, with a watch on the cookies issued and on everything the server sends before one returns; honest clients, attackers in the path, clients that return the wrong cookie and servers whose retry is out of order (independent endpoints). Sampling, not proof.",
 "C14": "Seeded simulation of endpoints used before their handshake completes and after it failed, with genuine traffic replayed at them, and of peers (an independent endpoint) that send alerts and application data at any point. Sampling, not proof.",
 "C18": "Seeded simulation with transports that fail, end, time out or write short at any byte in either direction; results of every call are compared with what the transport took. Sampling, not proof.",
 "C05": "Seeded simulation; every AEAD encryption of every endpoint is observed and key/nonce pairs, key ownership and epochs are compared over the whole run. Sampling, not proof.",
 "C07": "Seeded simulation of two whole DTLS endpoints over a datagram network that loses, repeats, reorders, delays and refragments for a while; progress within a bounded number of timeouts afterwards. Sampling, not proof.",
 "C09": "Seeded simulation of endpoints fed malformed, replayed and random input by the network, by an attacker in the path and by a peer with keys (structure-aware changes to every message, record and datagram, and floods); panics, calls that do not return, statement counts and memory are watched. Sampling, not proof.",
 "C08": "Seeded simulation of DTLS endpoints under datagram loss, corruption, truncation, splicing, replay and injection; each message read is compared with the messages written. Sampling, not proof.",
 "C13": "Seeded simulation of key updates from several threads of both ends while data flows, also against an independent TLS 1.3 endpoint; stream, progress and key-change oracles. Sampling, not proof.",
 "C15": "Seeded simulation of up to six connections that share client and server configurations, stores and cookie protectors, some honest, some hostile, attacked, aborted or silent, also through a Listener, while another thread copies the configurations; each honest connection is judged against the negotiation model as if it were alone, and configurations are compared field by field. Sampling, not proof; data races that no statement-level interleaving shows are not seen.",
 "C16": "Seeded simulation; every byte sent is searched for known secrets and checked for the order of clear and protected records. Sampling; only verbatim leaks of 8 or more bytes are seen.",
 "C20": "Seeded simulation of Dial and DialWithDialer over a simulated network and clock, with peers that are prompt, slow, silent, stalled, deaf, noisy, or gone, several dials at a time; time taken, results, open connections and goroutines are checked. Sampling, not proof.",
 "C21": "Seeded simulation of TLS and DTLS connections whose applications add extensions of drawn types and sizes to each message, with retries, PSKs, early data, slow and failing handlers and datagram loss; what one handler gave is compared with what the other was shown, and the negotiation with the independent model. Sampling, not proof.",
 "C22": "Seeded simulation of TLS and DTLS connections closed at drawn moments from another thread, by one end or both, with writers blocked by bounded transports, idle peers, key updates and early data, and of a Listener closed while clients connect; termination of every call and delivery of what was written are checked. Sampling, not proof.",
 "C23": "Seeded simulation of two mint endpoints over record layers that the harness supplies: a QUIC-like one (a stream per epoch, whose frames are cut, delayed, repeated and reordered across epochs) and mint's own, watched; keys, epochs, message placement, mutual exclusion and completion are checked, and the layers fail at drawn calls. Sampling, not proof.",
 "C17": "Seeded simulation of mint against an independent TLS 1.3 client and server written for this purpose and against Go's crypto/tls. Sampling, not proof.",
}
NA = {"C19": "syntax.Marshal and Unmarshal are pure functions of their arguments: no schedule, clock, I/O, fault or second party for the property to depend on, so there is nothing to simulate (their use on the wire is exercised by C02, C09 and C17)"}
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in CLAIM:
        checks.append({
            "property": p,
            "quick_cmd": "./check %s" % p,
            "thorough_cmd": "./check %s -tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH,
            "level": "exploration",
            "level_note": CLAIM[p],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {
  "guard": "none in /repo: the hooks are inserted by a go build -overlay that sim/cmd/instrument generates from the working tree (a scheduling point before each statement, shims for sync, time, crypto/aes and crypto/cipher)",
  "enable": "./check builds the simulator with that overlay; a plain build of /repo contains no hook",
  "source_commits": [],
 },
 "checks": checks,
 "not_applicable": na,
 "notes": "Replay a reported violation with ./check replay FILE. Known and fixed findings: known-findings.json.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
