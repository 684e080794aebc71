"""Where a harness crate lives. The crates mux_circuits, parasol_runtime and parasol_cpu of /repo do not build as they are (a data
file is missing from the repository): the harnesses that use them depend on build/shell, a mirror of /repo's current files made
here on every run, with an empty file in that place. Nothing else differs."""
import os, shutil, filecmp, threading
MISSING = "mux_circuits/src/data/multiplier-n32-m32"
SHELLED = {"mux", "cpu"}
def mirror(repo, dst):
    keep = set()
    for d, ds, fs in os.walk(repo):
        rel = os.path.relpath(d, repo)
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in fs:
            s, t = os.path.join(d, f), os.path.normpath(os.path.join(dst, rel, f)); keep.add(t)
            if os.path.islink(s) or not os.path.isfile(s): continue
            # a file that did not change keeps its time stamp, so cargo rebuilds only what changed
            if not (os.path.exists(t) and filecmp.cmp(s, t, shallow=False)): shutil.copyfile(s, t)
    m = os.path.join(dst, MISSING); keep.add(os.path.normpath(m))
    if not os.path.exists(os.path.join(repo, MISSING)) and not os.path.exists(m): open(m, "w").close()
    for d, ds, fs in os.walk(dst):
        ds[:] = [x for x in ds if x not in ("target",)]
        for f in fs:
            p = os.path.normpath(os.path.join(d, f))
            if p not in keep: os.remove(p)
def prepare(crate, root, repo, build):
    if crate in SHELLED: mirror(repo, os.path.join(build, "shell"))
    return os.path.join(root, "kani", crate)
