#!/usr/bin/env python3
"""check.py PROP | --setup | --build
Decides one property: model checks the specification, has TLC generate behaviours of it, replays them and the
driver's own scenarios on the real code, and validates the recorded traces against the specification.
Exit 0: held on everything explored.  1: VIOLATION.  2: the check itself failed."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZKP_REPO", "/repo")
SPEC = V + "/spec"
BUILD = V + "/build"
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, V + "/bin")
import plan


class ToolError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=V):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        raise ToolError("timeout: " + " ".join(cmd)[:300] + "\n" + out[-2000:])
    return p.returncode, out


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", "build", "states")]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def stamp(name, want, make):
    f = BUILD + "/" + name + ".stamp"
    if os.path.exists(f) and open(f).read() == want:
        return
    make()
    with open(f, "w") as g:
        g.write(want)


def build():
    os.makedirs(BUILD, exist_ok=True)

    def java():
        shutil.rmtree(BUILD + "/cls", ignore_errors=True)
        os.makedirs(BUILD + "/cls")
        rc, out = sh(["javac", "-nowarn", "-cp", JAR, "-d", BUILD + "/cls"] + tree(SPEC + "/java", (".java",)), 200)
        if rc:
            raise ToolError(out)
        os.makedirs(BUILD + "/gen", exist_ok=True)
        rc, out = sh([sys.executable, V + "/bin/purecopy.py", BUILD + "/gen"], 60)
        if rc:
            raise ToolError(out)

    stamp("java", digest(tree(SPEC + "/java", (".java",)) + tree(SPEC, (".tla",))), java)

    # cargo goes by modification times; content decides here
    env = {"RUSTFLAGS": "--cfg zkp_verif -Awarnings", "CARGO_TARGET_DIR": BUILD + "/target"}
    repo = digest(tree(REPO, (".rs", ".toml")))
    mine = digest(tree(V + "/harness", (".rs", ".toml", ".lock")))

    def clean(*packages):
        if os.path.exists(BUILD + "/target"):
            rc, out = sh(["cargo", "clean", "--offline", "--release"] + sum((["-p", p] for p in packages), []), 100, env, V + "/harness")
            if rc:
                shutil.rmtree(BUILD + "/target")

    def cargo():
        stamp("repo", repo, lambda: clean("kzg", "plonk", "fri", "nova", "harness"))
        clean("harness")
        rc, out = sh(["cargo", "build", "--release", "--offline", "--quiet"], 800, env, V + "/harness")
        if rc:
            raise ToolError("the harness does not build:\n" + out[-6000:])

    stamp("cargo", repo + mine, cargo)


def tlc(name, module, cfg, work, workers=1, extra=(), env=None, timeout=600, mem="3g"):
    d = f"{work}/tlc-{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(f"{d}/{module}.cfg", "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", f"-Xmx{mem}", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={SPEC}:{BUILD}/gen", "-cp", f"{BUILD}/cls:{JAR}:{COMM}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", f"{d}/{module}.cfg", *extra, f"{SPEC}/{module}.tla"]
    rc, out = sh(cmd, timeout, env, d)
    with open(d + "/out.txt", "w") as f:
        f.write(out)
    return rc, out, d + "/out.txt"


def cfg_text(job):
    t = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (job.get("init", "Init"), job.get("next", "Next"))
    for k, v in job.get("consts", {}).items():
        t += f"CONSTANT {k} <- {v[2:]}\n" if isinstance(v, str) and v.startswith("<-") else f"CONSTANT {k} = {v}\n"
    for i in job.get("invs", []):
        t += f"INVARIANT {i}\n"
    for i in job.get("props", []):
        t += f"PROPERTY {i}\n"
    if job.get("constraint"):
        t += f"CONSTRAINT {job['constraint']}\n"
    return t


COUNT = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue")


def model_check(name, job, work, res):
    rc, out, path = tlc(name, job["module"], cfg_text(job), work, job.get("workers", 2), timeout=job.get("timeout", 800))
    m = COUNT.findall(out)
    if rc != 0 or "No error has been found" not in out or not m or int(m[-1][2]) != 0:
        raise ToolError(f"model checking {name} did not pass: {path}\n" + out[-3000:])
    res["mc"].append({"model": name, "module": job["module"], "consts": {k: str(v) for k, v in job.get("consts", {}).items()}, "invariants": job.get("invs", []) + job.get("props", []),
                      "generated": int(m[-1][0]), "distinct": int(m[-1][1])})


def generate(name, job, work, seed, res):
    num = job["num"]
    rc, out, path = tlc(name, job["module"], cfg_text(job), work, 1, ["-simulate", f"num={num}", "-depth", str(job["depth"] + 3), "-seed", str(seed)], timeout=job.get("timeout", 400))
    scripts = [json.loads(json.loads(l)[len("@@SCRIPT "):]) for l in out.splitlines() if l.startswith('"@@SCRIPT ')]
    if rc != 0 or "Error" in out or len(scripts) < num:
        raise ToolError(f"generation {name} failed: {path}\n" + out[-3000:])
    m = re.findall(r"The number of states generated: (\d+)", out)
    scripts = scripts[:num]
    for s in scripts:
        s["gen"] = job.get("tag", job["module"])
    res["gen"].append({"model": name, "scripts": len(scripts), "states": int(m[-1]) if m else 0})
    return scripts


def validate(name, module, trace, work, job, timeout):
    rc, out, path = tlc("tr-" + name, module, cfg_text(job), work, 8, env={"TRACE": trace}, timeout=timeout, mem="8g")
    m = COUNT.findall(out)
    mism = [json.loads(json.loads(l)[len("@@MISMATCH "):]) for l in out.splitlines() if l.startswith('"@@MISMATCH ')]
    if rc != 0 or "No error has been found" not in out or not m:
        raise ToolError(f"trace validation {name} failed: {path}\n" + out[-3000:])
    return int(m[-1][0]), int(m[-1][1]), mism


def known():
    out = []
    for l in open(V + "/known_findings.txt"):
        if l.startswith("finding: "):
            f = dict(p.strip().split("=", 1) for p in l[len("finding: "):].split(" | ") if "=" in p)
            out.append(f)
    return out


def main():
    arg = sys.argv[1]
    t0 = time.time()
    if arg in ("--setup", "--build"):
        build()
        return 0
    prop = arg
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = plan.PLAN[prop]
    build()
    work = f"{V}/out/{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = {"mc": [], "gen": [], "tr": []}
    limit = 6000 if thorough else 700
    mism, samples, families, nsc, nev = [], [], {}, 0, 0

    def trace_part(k, comp):
        scripts = []
        for j, g in enumerate(comp.get("gen", [])):
            g = dict(g)
            g["num"] = g["num"] * (g.get("more", 8) if thorough else 1)
            scripts += generate(f"gen-{comp['name']}-{j}", g, work, seed, res)
        sf = f"{work}/scripts-{comp['name']}.ndjson"
        with open(sf, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        tr = f"{work}/trace-{comp['name']}.ndjson"
        args = [BUILD + "/target/release/vh", comp["name"], "--prop", prop, "--seed", str(seed), "--tier", tier, "--scripts", sf, "--out", tr]
        t1 = time.time()
        rc, out = sh(args, limit)
        if rc:
            raise ToolError("harness: " + out[-3000:])
        t2 = time.time()
        lines = open(tr).read().splitlines()
        recs = [json.loads(l) for l in lines]
        if not recs:
            raise ToolError("no scenario recorded")
        events = sum(len(r["events"]) for r in recs)
        gen, distinct, mm = validate(comp["name"], comp["trace"], tr, work, {"init": "TraceInit", "next": "TraceNext", "consts": comp.get("consts", {"P": "<-Prime", "Grp": '"G1"'})}, limit)
        if distinct != events + len(recs):
            raise ToolError(f"trace validation consumed {distinct} of {events + len(recs)} states ({work}/tlc-tr-{comp['name']}/out.txt)")
        if os.environ.get("VERIF_TIMES"):
            print(f"{comp['name']}: generation {t1 - t0:.1f} recording {t2 - t1:.1f} validation {time.time() - t2:.1f}")
        return comp, args, recs, events, gen, distinct, mm

    with ThreadPoolExecutor(max_workers=3) as ex:
        traces = [ex.submit(trace_part, k, c) for k, c in enumerate(P["traces"])]
        mcs = []
        for k, job in enumerate([] if "--traces-only" in sys.argv else P.get("mc", [])):
            if job.get("tier", tier) != tier:
                continue
            mcs.append(ex.submit(model_check, f"mc-{job['module']}-{k}", job, work, res))
        for f in mcs:
            f.result()
        if os.environ.get("VERIF_TIMES"):
            print(f"models {time.time() - t0:.1f}")
        done = [f.result() for f in traces]

    status, findings = 0, known()
    quiet = {}
    viol = []
    for comp, args, recs, events, gen, distinct, mm in done:
        by = {r["id"]: r for r in recs}
        nsc += len(recs)
        nev += events
        res["tr"].append({"component": comp["name"], "scenarios": len(recs), "events": events, "generated": gen, "distinct": distinct})
        for r in recs:
            families[r["fam"]] = families.get(r["fam"], 0) + 1
        for r in [recs[0], recs[len(recs) // 2], recs[-1]]:
            s = json.dumps(r)
            samples.append(r if len(s) < 3000 else {"scenario": r["id"], "family": r["fam"], "events": len(r["events"]), "beginning": s[:1500]})
        for m in mm:
            if m["prop"] != prop:
                continue
            r = by[m["id"]]
            f = next((f for f in findings if f["property"] == prop and f["what"] == m["what"] and f["family"] in (r["fam"], "*")), None)
            if f:
                quiet.setdefault((f["what"], f["family"]), f)
            else:
                viol.append((comp, args, r, m))
    for f in quiet.values():
        print(f"KNOWN-FINDING: property={prop} {f['says']}")
    if viol:
        comp, args, r, m = viol[0]
        path = f"{work}/violation.json"
        with open(path, "w") as f:
            json.dump({"property": prop, "mismatch": m, "all": [x[3] for x in viol[:50]], "scenario": r,
                       "how": "cd /verif && " + " ".join(a if a != args[-1] else "/tmp/one.ndjson" for a in args) + f" --only {r['id']} ; then TLC with spec/{comp['trace']}.tla"}, f, indent=1)
        for _, _, r, m in viol[:5]:
            print(f"  scenario {r['id']} ({r['fam']}) event {m['i']}: {m['what']}; recorded {str(m.get('recorded', ''))[:200]}; specified {str(m.get('specified', ''))[:200]}")
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    if "--traces-only" in sys.argv:  # for trying out planted changes: the models do not depend on the code
        print(f"{prop}: {nsc} traces {nev} events; {len(viol)} mismatches")
        return status
    mcs_, trs = res["mc"], res["tr"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["distinct"] for m in mcs_) + sum(t["distinct"] for t in trs),
            "transitions": sum(m["generated"] for m in mcs_) + sum(t["events"] for t in trs),
            "traces_validated_against_impl": nsc,
            "recorded_events": nev,
            "generated_behaviours": sum(g["scripts"] for g in res["gen"]),
            "models": mcs_, "generation": res["gen"], "trace_validation": trs, "scenario_families": families,
            "samples": samples,
        },
        "assumptions": P.get("assume", []) + plan.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {len(mcs_)} models {sum(m['distinct'] for m in mcs_)} states; {nsc} traces {nev} events; {len(viol)} mismatches; {ev['wall_s']} s")
    return status


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("CHECK ERROR:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
