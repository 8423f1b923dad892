#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   - builds the harnesses of a property from /repo's working
tree, runs the exhaustive exploration, writes evidence/<id>.json, prints VIOLATION/KNOWN-FINDING."""
import sys, os, subprocess, json, time, hashlib, glob, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BUZZ_REPO", "/repo")
SRC = REPO + "/src/buzz"
MAINS = {"buzzasm_main.c", "buzzdeasm_main.c", "buzzrun.c", "buzzparse.c"}
sys.path.insert(0, V + "/bin")
from plan import PLAN

FLAVORS = {
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "fast": ["-O2", "-g0"],
}
BASE = ["-std=gnu99", "-D_GNU_SOURCE", "-w", "-I" + REPO + "/src", "-I" + V + "/harness"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(dirname, flavors, harnesses):
    """compiles library + harnesses; returns {(harness,flavor): exe}. Raises on compile failure."""
    jobs = []
    libsrc = sorted(f for f in glob.glob(SRC + "/*.c") if os.path.basename(f) not in MAINS)
    gen = os.path.join(dirname, "gen"); os.makedirs(gen + "/buzz", exist_ok=True)
    cfg = SRC + "/config.h.in"
    if os.path.exists(cfg):
        txt = open(cfg).read()
        import re
        txt = re.sub(r"#cmakedefine\s+(\w+).*", r"#define \1 1", txt)
        open(gen + "/buzz/config.h", "w").write(re.sub(r"@\w+@", "", txt))
    exes, objs = {}, {}
    for fl in flavors:
        os.makedirs(os.path.join(dirname, fl), exist_ok=True)
        objs[fl] = []
        for s in libsrc + [V + "/harness/mc.c", V + "/harness/bz.c"]:
            o = os.path.join(dirname, fl, os.path.basename(s) + ".o")
            objs[fl].append(o); jobs.append(["gcc"] + FLAVORS[fl] + BASE + ["-I" + gen, "-c", s, "-o", o])
    hobj = {}
    for h, fl in harnesses:
        o = os.path.join(dirname, fl, h + ".h.o"); hobj[(h, fl)] = o
        jobs.append(["gcc"] + FLAVORS[fl] + BASE + ["-I" + gen, "-c", V + "/harness/" + h + ".c", "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        for r, c in zip(ex.map(sh, jobs), jobs):
            if r.returncode:
                raise RuntimeError("compile failed: " + " ".join(c) + "\n" + r.stdout[-4000:])
    links = []
    for (h, fl), o in hobj.items():
        e = os.path.join(dirname, fl, h); exes[(h, fl)] = e
        ld = [w for l in open(V + "/harness/" + h + ".c") if l.startswith("/* LDFLAGS:") for w in l.split("LDFLAGS:")[1].split("*/")[0].split()]
        links.append(["gcc"] + FLAVORS[fl] + [o] + objs[fl] + ld + ["-lm", "-o", e])
    with cf.ThreadPoolExecutor(8) as ex:
        for r, c in zip(ex.map(sh, links), links):
            if r.returncode:
                raise RuntimeError("link failed: " + " ".join(c) + "\n" + r.stdout[-4000:])
    return exes

def known():
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=P06 key=<key> case=<substring of the case> | what fails
                head, _, what = l[len("finding:"):].partition("|")
                d = {}
                for kv in head.strip().split(" ", 2):
                    k, _, v = kv.partition("="); d[k] = v
                d["what"] = what.strip(); out.append(d)
    return out

def unesc(s):
    return s.replace("\\\\", "\0").replace("\\n", "\n").replace("\\t", "\t").replace("\0", "\\")

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    t0 = time.time()
    plan = PLAN[pid]
    scratch = tempfile.mkdtemp(prefix="buzzmc.")
    try:
        hs = [(h, fl) for (h, fl) in plan["harness"]]
        try:
            exes = build(scratch, sorted({fl for _, fl in hs}), hs)
        except RuntimeError as e:
            print(str(e)); print("check %s: cannot build the harness against the tree" % pid)
            return 2
        viol, totals, notes, samples = [], {"cases": 0, "states": 0, "transitions": 0, "traces": 0}, {}, []
        exhaustive, whys, per = True, [], []
        for h, fl in hs:
            out = os.path.join(scratch, h + "." + fl + ".out")
            cmd = [exes[(h, fl)], "--tier", tier, "--workers", os.environ.get("MC_WORKERS", "8"), "--out", out]
            b = plan.get("budget", {}).get(tier, 600 if tier == "quick" else 7200) / len(hs)
            cmd += ["--budget", str(b)]
            env = dict(os.environ); env.pop("BUZZ_INCLUDE_PATH", None); env["LC_ALL"] = "C"; env["BUZZ_REPO"] = REPO; env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
            ht = time.time()
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            txt = open(out, errors="replace").read() if os.path.exists(out) else ""
            lines = txt.split("\n")
            if r.returncode or "E" not in lines:
                print(r.stdout[-2000:]); print("check %s: harness %s did not finish (rc %d)" % (pid, h, r.returncode)); return 2
            st = {}
            for l in lines:
                f = l.split("\t")
                if f[0] == "V" and len(f) >= 5:
                    viol.append({"harness": h, "flavor": fl, "key": f[1], "index": f[2], "case": f[3], "msg": f[4]})
                elif f[0] == "S": samples.append(unesc(f[1]))
                elif f[0] == "N": notes[f[1]] = notes.get(f[1], 0) + int(f[2])
                elif f[0] == "T":
                    for kv in f[1:]:
                        k, _, v = kv.partition("="); st[k] = v
            for k in totals: totals[k] += int(st.get(k, 0))
            if st.get("exhaustive") != "1":
                exhaustive = False; whys.append("%s: %s" % (h, st.get("why")))
            per.append({"harness": h, "build": fl, "cases": int(st["cases"]), "states": int(st["states"]), "transitions": int(st["transitions"]),
                        "traces": int(st["traces"]), "wall_s": round(time.time() - ht, 1)})
            if os.environ.get("MC_FAILFAST") and viol: break
        kf = [k for k in known() if k.get("property") == pid]
        used, new = {}, []
        for v in viol:
            for k in kf:
                if k["key"] == v["key"] and k.get("case", "") in v["case"]:
                    used.setdefault(k["key"] + k.get("case", ""), k); break
            else: new.append(v)
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": plan["level"],
              "coverage": {"states": totals["states"] or totals["traces"], "transitions": totals["transitions"],
                           "traces_validated_against_impl": totals["traces"],
                           "samples": samples[:8], "exhaustive": exhaustive,
                           "cases": totals["cases"], "per_harness": per, "counters": notes, "cut_short": whys,
                           "bounds": plan.get("bounds", "")},
              "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
        for k in used.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        print("%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%s violations=%d known=%d wall=%.1fs" % (
            pid, tier, totals["cases"], totals["states"], totals["transitions"], totals["traces"], exhaustive, len(new), len(viol) - len(new), time.time() - t0))
        if new:
            os.makedirs(V + "/evidence/replay", exist_ok=True)
            seen = {}
            for v in new: seen.setdefault(v["key"], []).append(v)
            for i, (k, l) in enumerate(sorted(seen.items())):
                rp = "%s/evidence/replay/%s-%d.txt" % (V, pid, i)
                with open(rp, "w") as f:
                    f.write("property %s, violation class %s, %d case(s)\n" % (pid, k, len(l)))
                    for v in l[:5]:
                        f.write("\n--- harness %s (%s build) case index %s\nreplay: bash %s/bin/replay.sh %s %s %s %s\n\ncase:\n%s\n\nobserved:\n%s\n" % (
                            v["harness"], v["flavor"], v["index"], V, v["harness"], v["flavor"], tier, v["index"], unesc(v["case"]), unesc(v["msg"])))
                print("  [%s] x%d e.g. %s => %s" % (k, len(l), l[0]["case"][:300], l[0]["msg"][:400]))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
