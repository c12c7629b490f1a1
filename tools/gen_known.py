"""Writes known_findings.json: the repairs made in /repo, plus the open findings listed here."""
import json, subprocess
OPEN = []
PROPS = {
 "refuse signature algorithm pairs": "C28", "bytes after the last certificate": "C28",
 "the refusal of a session request over SPDM 1.0": "C26", "a FINISH in a PSK session is refused": "C26",
 "a measurement index is refused only": "C20", "application data is not sent as": "C19",
 "a FINISH is verified with the chain": "C18",
 "a request that is refused before it is sent": "C17",
  "a random source that fills only": "C16", "the certificate format check": "C27", "reserved bits of attribute bytes": "C12", "a group, cipher suite": "C10",
 "a requester operation before negotiation": "C11",
 "an ERROR response replaces": "C26", "application replies do not drive": "C19", "application data reaches the handler": "C19",
 "DIGESTS carries the digest": "C14", "encapsulated exchanges are served only": "C18", "a failed or unsendable session": "C09",
 "KEY_EXCHANGE_RSP of a handshake": "C05", "the responder's PSK context": "C16", "a hash context that cannot": "C15",
 "a FINISH or PSK_FINISH that fails": "C05", "a vendor-defined request leaves": "C25", "the requester selects only": "C02",
 "AEAD keys and IVs": "C24", "opaque data carries": "C24", "vendor payload and certificate portion": "C12",
 "negotiation fails on both": "C02", "a digest or signature of the wrong size": "C12", "GET_CAPABILITIES must name": "C03",
 "the measurement count is sent": "C20", "a request answered with an ERROR": "C17", "certificate portions fit": "C21",
 "a record that fails": "C06", "a session the requester cannot": "C09", "the FINISH signature uses": "C18",
 "CHALLENGE_AUTH must answer": "C04", "the DOE application encapsulation": "C13", "secured payloads are bounded": "C10",
 "encapsulated exchanges end": "C11", "a vendor-defined request before": "C03", "an unfinished challenge transcript": "C17",
 "PSK sessions and encapsulated exchanges work": "C01", "the encapsulated response ack": "C24", "the export master secret": "C24",
 "the heartbeat period is zero": "C24", "every measurement hash algorithm": "C02", "setup fails on both sides when": "C02",
}
EXTRA = {}
try:
    from known_extra import EXTRA, OPEN  # noqa
except ImportError:
    pass
PROPS.update(EXTRA)
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in PROPS.items() if s.startswith(k)]
    if len(p) != 1:
        print("no property for:", s)
        continue
    out.append({"property": p[0], "key": "fixed:" + h, "status": "fixed", "what": f"fixed: property={p[0]} {h} {s}"})
json.dump({"findings": OPEN + out}, open("/verif/known_findings.json", "w"), indent=1)
print(len(out), "fixed", len(OPEN), "open")
