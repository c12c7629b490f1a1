#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the explorer from /repo's working tree in the variants the property needs, runs the exhaustive
exploration, writes evidence/<property>.json and reports. Exit 0: held on everything explored.
Exit 1: `VIOLATION property=<id> replay=<path>`. Anything else is an error of the check."""
import glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
from checks_table import VARIANTS, assumptions  # noqa: E402

# seconds of exploration for all variants together; what is not reached by then is reported as a cap
CAP = {"quick": 420, "thorough": 3000}


def case_crashes(prop, variant, tier, case, cur):
    """Re-run one case alone; True if the process dies or hangs on it (deterministically)."""
    cmd = [f"target/bin/mc-{variant}", prop, "--tier", tier, "--only", case, "--cur", cur, "--threads", "1"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
        return p.returncode, p.stdout.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        return -1000, "no result within 150 s"


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    variants = VARIANTS[prop][tier]
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replay", exist_ok=True)
    ev_path = f"evidence/{prop}.json"
    if os.path.exists(ev_path):
        os.remove(ev_path)
    b = subprocess.run(["bash", "mc/build.sh"] + variants, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode != 0:
        print(b.stdout.decode(errors="replace")[-6000:])
        print("ERROR: build failed")
        return 2
    known = [k for k in json.load(open("known_findings.json"))["findings"] if k["property"] == prop and k.get("status") == "open"]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "families": {}, "variants": variants, "caps": []}
    found = []  # (variant, key, case, desc, detail, count)
    start = time.time()
    for k, v in enumerate(variants):
        left = CAP[tier] - (time.time() - start)
        dl = max(20, left / (len(variants) - k))
        cur = f"target/cur-{prop}-{v}"
        os.makedirs(cur, exist_ok=True)
        for f in glob.glob(cur + "/cur.*"):
            os.remove(f)
        out = f"{cur}/out.json"
        if os.path.exists(out):
            os.remove(out)
        cmd = [f"target/bin/mc-{v}", prop, "--tier", tier, "--out", out, "--cur", cur, "--deadline", str(int(dl))]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=dl + 150)
        except subprocess.TimeoutExpired:
            print(f"ERROR: {prop} {v}: exploration did not finish in {dl + 150} s")
            return 3
        text = p.stdout.decode(errors="replace")
        if p.returncode != 0 or not os.path.exists(out):
            # the process died or an execution never ended: find the case
            cases = re.findall(r"^HANG (\S+)", text, re.M)
            for f in sorted(glob.glob(cur + "/cur.*")):
                c = open(f).read().split("\n")[0].strip()
                if c and c != "-" and c not in cases:
                    cases.append(c)
            hit = False
            for c in cases:
                rc, tail = case_crashes(prop, v, tier, c, cur)
                if rc != 0:
                    fam = c.split("#")[0]
                    found.append((v, f"crash/{fam}", c, "the process running this execution dies or never ends", f"exit {rc}: {tail[-600:]}", 1))
                    hit = True
            if not hit:
                print(text[-3000:])
                print(f"ERROR: {prop} {v}: explorer ended with {p.returncode} and no single execution reproduces it")
                return 3
            cov["exhaustive"] = False
            cov["caps"].append(f"{v}: exploration ended at a crashing execution")
            continue
        r = json.load(open(out))
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["execs"]
        cov["samples"] += [f"[{v}] {s}" for s in r["samples"]][:40]
        for c in r["caps"]:
            cov["caps"].append(f"{v}: {c}")
            cov["exhaustive"] = False
        for f, d in r["families"].items():
            cov["families"][f"{v}/{f}"] = d
        for x in r["violations"]:
            found.append((v, x["key"], x["case"], x["desc"], x["detail"], r["keys"].get(x["key"], 1)))
        if r["execs"] == 0:
            print(f"ERROR: {prop} {v}: nothing was explored")
            return 3
    new, old = {}, {}
    for f in found:
        k = next((k for k in known if k["key"] == f[1] and ("variants" not in k or f[0] in k["variants"])), None)
        if k is not None:
            old.setdefault(k["key"], (k, []))[1].append(f)
        else:
            new.setdefault(f[1], []).append(f)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": assumptions(prop), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if old:
        cov["known_findings_seen"] = {k: len(v[1]) for k, v in old.items()}
    json.dump(ev, open(ev_path, "w"), indent=1)
    for k, (kf, fs) in old.items():
        print(f"KNOWN-FINDING: property={prop} {kf['what']} [{k}]")
    n = 0
    for key, fs in new.items():
        f = fs[0]
        path = f"replay/{prop}-{n}.txt"
        n += 1
        with open(path, "w") as o:
            o.write(f"property {prop}\nkey {key}\nvariant {f[0]}\ncase {f[2]}\ntier {tier}\n"
                    f"replay: cd /verif && bash mc/build.sh {f[0]} && target/bin/mc-{f[0]} {prop} --tier {tier} --only '{f[2]}' --cur /tmp\n"
                    f"  (MC_WIRE=1 prints the frames, MC_PANIC=1 a backtrace)\n\n{f[3]}\n{f[4]}\n\nfurther cases with this key:\n")
            for g in fs[1:]:
                o.write(f"  {g[0]} {g[2]}: {g[3]}: {g[4]}\n")
        if n <= 15:
            print(f"  {key} ({f[5]}x, e.g. {f[0]} {f[2]}): {f[3][:200]}: {f[4][:300]}")
            print(f"VIOLATION property={prop} replay={HERE}/{path}")
    if n == 0:
        print(f"{prop} {tier}: held on {cov['traces_validated_against_impl']} executions, {cov['states']} states, {cov['transitions']} transitions; {ev['wall_s']} s")
    return 1 if n else 0


if __name__ == "__main__":
    sys.exit(main())
