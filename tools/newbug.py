"""tools/newbug.py ID PROPERTY NEEDS BREAKS: make seeded/ID from the current diff of /tmp/edit (a scratch copy of /repo) and /tmp/main.rs, then revert the copy."""
import json, os, shutil, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
here = os.path.dirname(os.path.abspath(__file__))
d = os.path.join(here, "..", "seeded", i)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/tmp/edit", "diff"]).decode()
assert diff.strip(), "no change"
open(os.path.join(d, "patch.diff"), "w").write(diff)
if not os.path.exists("/tmp/demo.sh"):
    for f in ("demo.sh", "h.rs", "Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(here, "demo", f), d)
    shutil.move("/tmp/main.rs", os.path.join(d, "main.rs"))
else:
    shutil.move("/tmp/demo.sh", os.path.join(d, "demo.sh"))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
subprocess.check_call(["git", "-C", "/tmp/edit", "checkout", "-q", "--", "."])
# do the patched lines belong to the original repository?
