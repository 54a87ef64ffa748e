"""Evidence files, replay files and the known-findings file."""
import json, os, sys, time
from .build import HERE

T0 = time.time()

def known():
    """property -> list of (key, text) of recorded, unrepaired findings."""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                rest = line[len("finding: property="):]
                pid, key, text = rest.split(" ", 2)
                out.setdefault(pid, []).append((key[len("key="):], text))
    return out

def finish(pid, tier, coverage, violations, assumptions=(), level="other"):
    """Writes the evidence, prints the violations, returns the exit status.

    A violation is a dict with at least `key` (stable, no line numbers) and `what`."""
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    kn = known().get(pid, [])
    new, old = [], []
    for v in violations:
        hit = [t for k, t in kn if k == v["key"]]
        (old if hit else new).append((v, hit))
    seen = set()
    for v, hit in old:
        if v["key"] not in seen:
            seen.add(v["key"])
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
    paths = []
    uniq = {}
    for v, _ in new:
        uniq.setdefault(v["key"], v)
    for i, (k, v) in enumerate(sorted(uniq.items())):
        if i >= 20:
            break
        p = os.path.join(ev, "replay", "%s-%d.json" % (pid, i))
        with open(p, "w") as f:
            json.dump(v, f, indent=1, default=str)
        paths.append(p)
        print("%s: %s" % (v["key"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    doc = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level, "coverage": coverage, "assumptions": list(assumptions or ()),
        "violations": len(uniq),
        "wall_s": round(time.time() - T0, 3),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    sys.stdout.flush()
    return 1 if new else 2 if assumptions is None else 0
