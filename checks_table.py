"""Which build variants each check explores.  h: hashed transcripts, m: mutual authentication, n0: neither."""
ALL = ["hm", "n0", "h", "m"]
TWO = ["hm", "n0"]
ASSUMPTIONS = [
    "The cryptographic primitives, random source, secrets, device I/O and measurements are deterministic stand-ins registered through the library's own callbacks; their strength is not what is decided here.",
    "The harness closes the system: one requester and one responder (or a scripted peer) over a link the explorer controls, single-threaded as the library is.",
    "Built with overflow and debug assertions on, so that an arithmetic overflow is a panic.",
]
VARIANTS = {p: {"quick": TWO, "thorough": ALL} for p in ["C%02d" % i for i in range(1, 29)]}
for p in ["C01"]:
    VARIANTS[p]["quick"] = ALL

VARIANTS["C18"]["quick"] = ["hm", "m"]

VARIANTS["C28"] = {"quick": ["ring"], "thorough": ["ring"]}
PER_PROPERTY = {
    "C28": [
        "The real provider of spdmlib/src/crypto/spdm_ring is run, built with the published crates ring 0.16.20 and webpki 0.22.4 (with the entry point that the repository's own patch adds to webpki), because the submodules external/ring and external/webpki are empty here.",
        "Certificate validity is compared with the system clock; the repository's test certificates are valid until 2033. The single self-signed chain (ca_selfsigned) is left out, because the published webpki refuses a CA certificate as end entity.",
        "ring draws Diffie-Hellman keys and RSA-PSS salts from the system's random source: those values differ between runs, what is compared does not depend on them.",
        "Built with overflow and debug assertions on, so that an arithmetic overflow is a panic.",
    ],
}


def assumptions(prop):
    return PER_PROPERTY.get(prop, ASSUMPTIONS)
