"""mut.py PROPS FILE OLD NEW : run checks on a copy of the source with one edit
(for developing the checks; nothing of the copy is executed)."""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    for dp, dn, fn in os.walk("/repo/src/pybsm"):
        if dp.endswith("/atms"):
            dn[:] = []
            continue
        q = dp.replace("/repo", d)
        os.makedirs(q, exist_ok=True)
        for x in fn:
            if x.endswith(".py"):
                shutil.copy(os.path.join(dp, x), q)
    os.makedirs(d + "/src/pybsm", exist_ok=True)
    if not os.path.exists(d + "/src/pybsm/atms"):
        os.symlink("/repo/src/pybsm/atms", d + "/src/pybsm/atms")
    p = d + "/src/pybsm/" + f
    s = open(p).read()
    old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
    k = s.count(old)
    if k == 0:
        print("NOT FOUND"); sys.exit(3)
    n = int(os.environ.get("NTH", "0"))
    parts = s.split(old)
    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, "w").write(s)
    env = dict(os.environ, PBSA_REPO=d, PBSA_EVIDENCE=d + "/ev")
    r = subprocess.run(["python3-vt", "-m", "pbsa.check", "-v"] + props.split(","), cwd="/verif", env=env, capture_output=True, text=True)
    out = r.stdout + r.stderr
    print("occurrences", k, "exit", r.returncode)
    for ln in out.splitlines():
        print("  ", ln[:int(os.environ.get("W", "420"))])
finally:
    shutil.rmtree(d)
