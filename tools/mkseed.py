"""mkseed.py SPEC.py : make planted changes under /verif/seeded from SPEC.SEEDS,
each a dict id, prop, edits=[(file, old, new[, nth])], needs, breaks, demo.
Kept only when the patch applies, the tests pass and the demo separates."""
import json, os, shutil, subprocess, sys
W = "/tmp/seedrepo"
PRE = '''import warnings
import numpy as np
warnings.simplefilter("ignore")
'''
DB = '''from pybsm import utils


def condition(altitude, ground_range, ihaze):
    """stand-in for the database files, which are not part of a checkout"""
    w = 1e-6 * np.linspace(0.3, 14.0, 1371)
    t = np.exp(-(0.05 + 1e-5 * ground_range + 2e-6 * altitude + 0.02 * ihaze) * (1 + 0.3 * np.sin(w * 3e6)))
    um = w * 1e6
    a = np.zeros((1371, 6))
    a[:, 0], a[:, 1] = w, t
    a[:, 2] = (1 - t) * (3e3 + 2e5 * np.exp(-((um - 10) / 4) ** 2))
    a[:, 3] = t * 1e4 * np.exp(-um / 9)
    a[:, 4] = (1 - t) * 6e6 * np.exp(-um / 0.7)
    a[:, 5] = t * 3e7 * np.exp(-um / 0.9)
    return a


utils.load_database_atmosphere_no_interp = condition
utils.load_database_atmosphere = condition


def sensor(**kw):
    from pybsm.simulation import Sensor
    d = dict(D=0.275, f=4.0, p_x=8e-6, opt_trans_wavelengths=np.array([0.58, 0.8]) * 1e-6, eta=0.4, int_time=0.03, dark_current=5.0, read_noise=25.0,
             max_n=96000, bit_depth=11.9, max_well_fill=0.6, s_x=2e-6, s_y=1e-6, da_x=1e-4, da_y=5e-5)
    d.update(kw)
    s = Sensor("s", **d)
    s.qe_wavelengths = np.array([0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9]) * 1e-6
    s.qe = np.array([0.05, 0.6, 0.75, 0.85, 0.85, 0.75, 0.5])
    s.optics_transmission = 0.5 * np.ones(len(d["opt_trans_wavelengths"]))
    return s


def scenario(**kw):
    from pybsm.simulation import Scenario
    d = dict(ihaze=1, altitude=9000.0, ground_range=60000.0, aircraft_speed=100.0)
    d.update(kw)
    return Scenario("n", **d)


'''
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def restore(keep):
    for p, t in keep.items():
        open(p, "w").write(t)


def main(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    if not os.path.exists(W):
        sh("mkdir -p %s && cp -a /repo/. %s/" % (W, W))
    env = dict(os.environ, PYTHONPATH=W + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        keep = {}
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(PRE + (DB if s.get("db", True) else "") + s["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        ok = True
        r0 = sh("bash %s/demo.sh" % d, env=env, cwd=W)
        for e in s["edits"]:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 0
            p = W + "/src/pybsm/" + f
            t = open(p).read()
            keep.setdefault(p, t)
            parts = t.split(old)
            if len(parts) < n + 2:
                print(s["id"], "NOT FOUND", f, old)
                ok = False
                break
            open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        if not ok:
            shutil.rmtree(d)
            restore(keep)
            continue
        open(d + "/patch.diff", "w").write(sh("git -C %s diff -- %s" % (W, " ".join(keep))).stdout)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, env=env, cwd=W)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --continue-on-collection-errors --timeout=300 --tb=line 2>&1 | tail -3", env=env, cwd=W)
        restore(keep)
        cause = ""
        if r0.returncode or not r1.returncode:
            cause = "DEMO base %d patched %d %s %s" % (r0.returncode, r1.returncode, r0.stderr[-300:], r1.stdout[-200:])
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        print(s["id"], s["prop"], "ok" if not cause else cause, "|", last, "|", r1.stderr.strip().splitlines()[-1][:150] if r1.stderr.strip() else "")


main(sys.argv[1], sys.argv[2:])
