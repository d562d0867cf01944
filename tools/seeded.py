#!/usr/bin/env python3
"""seeded.py [--all] [ids...]: applies planted bugs one after another to a scratch copy of /repo,
runs a copy of the check of the bug's property against it (if that misses it, or with --all, all
the others too), and notes which checks caught it in tools/seeded.json."""
import json, os, subprocess, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(home, "tools/seeded.json")
res = json.load(open(out)) if os.path.exists(out) else {}
args = [a for a in sys.argv[1:] if a[0] != "-"]
every = "--all" in sys.argv
props = [json.loads(l)["id"] for l in open(os.path.join(home, "properties.jsonl"))]
def sh(*c):
    return subprocess.run(c, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
work = "/tmp/mc-seeded"
os.makedirs(work, exist_ok=True)
repo, copy = work + "/repo", work + "/verif"
os.environ["REPO"] = repo
sh("rsync", "-rlpc", "--delete", "--exclude=/target", "/repo/", repo + "/")
sh("rsync", "-rlpc", "--delete", "--exclude=/target", "--exclude=/evidence", "--exclude=/seeded", home + "/", copy + "/")
sh("sed", "-i", 's|"/repo/|"%s/|' % repo, copy + "/harness/Cargo.toml")
for id in args or sorted(d for d in os.listdir(os.path.join(home, "seeded")) if d[0] != "."):
    d = os.path.join(home, "seeded", id)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    if not args and res.get(id):
        continue
    r = sh("git", "-C", repo, "apply", os.path.join(d, "patch.diff"))
    if r.returncode:
        print(id, "does not apply", r.stdout)
        continue
    caught = []
    try:
        for q in [p] + [x for x in props if x != p]:
            r = sh(os.path.join(copy, "run.sh"), q)
            hit = any(l.startswith(f"VIOLATION property={q} ") for l in r.stdout.splitlines())
            if r.returncode == 1 and hit:
                caught.append(q)
            elif r.returncode:
                print(id, q, "rc", r.returncode, r.stdout[-500:])
            if caught and not every:
                break
    finally:
        sh("git", "-C", repo, "checkout", "--", ".")
    res[id] = caught
    print(id, p, "caught by", caught or "NOTHING", flush=True)
    json.dump(dict(sorted(res.items())), open(out, "w"), indent=1)
    open(out, "a").write("\n")
