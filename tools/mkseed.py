"""mkseed.py ID PROPERTY FILE  (reads: old text, new text, needs, breaks, demo from a file given as argument 4, sections separated by lines of %%%)"""
import sys, os, json, subprocess, shutil
sid, prop, path, spec = sys.argv[1:5]
parts = [p.strip("\n") for p in open(spec).read().split("\n%%%\n")]
edits, rest = parts[:-3], parts[-3:]
W = "/tmp/mkseed"
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"], check=True)
try:
    for i in range(0, len(edits), 2):
        fn = path
        old, new = edits[i], edits[i + 1]
        if old.startswith("FILE "):
            fn, old = old[5:].split("\n", 1)
        s = open(os.path.join(W, fn)).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(os.path.join(W, fn), "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True, check=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
D = "/verif/seeded/" + sid
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(d)
open(D + "/demo.sh", "w").write(rest[2] + "\n")
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": rest[0], "what_it_breaks": rest[1]}, open(D + "/meta.json", "w"), indent=1)
# lines of the original only
base = "cd6f0ba"
for l in subprocess.run(["git", "-C", "/repo", "apply", "--stat", D + "/patch.diff"], capture_output=True, text=True).stdout.split("\n"):
    if l: print(l)
