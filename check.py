#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current tree:
  1. builds the harness (harness/, ...) against /repo;
  2. checks the TLA+ models of the property with TLC (spec/MC*.tla);
  3. lets TLC enumerate behaviours of the specification (spec/Enum*.tla) and
     replays them in the real code; runs the random scenario suites as well;
  4. has TLC decide, for every recorded execution, whether it is a behaviour
     of the specification (spec/Trace.tla).

Exit status: 0 the property held on everything explored; 1 it did not (with a
VIOLATION line); anything else: the check itself could not run.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
JOBS = min(8, os.cpu_count() or 4)
EVID = os.path.join(HERE, "evidence")

sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


def die(msg):
    print("BROKEN: " + msg, flush=True)
    sys.exit(2)


ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, LC_ALL="C.UTF-8", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


# ---------------------------------------------------------------- building

def refresh():
    """Cargo only sees newer mtimes: touch what changed since the last build."""
    sums = os.path.join(TARGET, ".sums.json")
    os.makedirs(TARGET, exist_ok=True)
    try:
        old = json.load(open(sums))
    except (OSError, ValueError):
        old = None
    new = {}
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in files:
            if f.endswith((".rs", ".toml", ".json", ".lock")):
                p = os.path.join(root, f)
                try:
                    new[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
                except OSError:
                    pass
    if old is not None:
        for p, h in new.items():
            if old.get(p) != h:
                os.utime(p)
    json.dump(new, open(sums, "w"))


class NotRust(Exception):
    """The code generated for the types of derive/ does not compile."""


# Harnesses: (directory, binary).
HARNESSES = {"harness": ("harness", "tldr-verif"), "derive": ("derive", "tldr-derive"), "gen": ("derive", "tldr-gen")}


def build(harness):
    crate, name = HARNESSES[harness]
    lock = os.path.join(HERE, crate, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--bin", name], cwd=os.path.join(HERE, crate), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if before is not None and open(lock, "rb").read() != before:
        open(lock, "wb").write(before)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        if crate == "derive" and re.search(r"error[^\n]*\n(?:[^\n]*\n){0,3}?\s*--> src/(?:gen/)?types\.rs", r.stdout):
            # The harness is as it was: what the macros generate is not Rust.
            build("harness")
            raise NotRust(r.stdout)
        die(f"{name} does not build")
    return os.path.join(TARGET, "debug", name)


def build_tool(var, package, name):
    """A command line tool, from the tree under test."""
    lock = os.path.join(REPO, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "-p", package, "--bin", name], env=dict(ENV, CARGO_PROFILE_DEV_DEBUG="0"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if before is not None and open(lock, "rb").read() != before:
        open(lock, "wb").write(before)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("the command line tool does not build")
    ENV[var] = os.path.join(TARGET, "debug", name)


# --------------------------------------------------------------- recording

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def slice_cases(binary, suite, seed, lo, hi, wd):
    """Runs cases lo..hi of a suite; a crash or a hang is recorded as a case."""
    out, at, deaths = [], lo, 0
    while at < hi and deaths < 4:
        p = subprocess.run([binary, "run", suite, str(seed), str(at), str(hi)], cwd=wd, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
        begun = None
        for line in p.stdout.decode("utf-8", "replace").splitlines():
            if line.startswith('{"begin":'):
                begun = int(line[9:-1])
            elif line.endswith("}"):
                out.append(line)
                begun = None
        if p.returncode == 0:
            break
        if begun is None:
            die(f"harness failed on {suite} ({p.returncode}): {p.stderr[-500:]!r}")
        if p.returncode == 3:
            die(f"harness failed on {suite}/{seed}/{begun}: {p.stderr[-800:]!r}")
        op = "hang" if p.returncode == 77 else "crash"
        out.append(json.dumps({"case": f"{suite}/{seed}/{begun}", "op": op, "rc": p.returncode}))
        deaths += 1
        at = begun + 1
    return out


def exec_cases(binary, path, wd):
    """Replays the behaviours TLC enumerated (one JSON case per line)."""
    lines = open(path).read().splitlines()
    chunks = [lines[i::JOBS] for i in range(JOBS)]

    def run(k):
        todo, out, deaths = chunks[k], [], 0
        while todo and deaths < 4:
            p = subprocess.run([binary, "exec"], cwd=wd, env=ENV, input="\n".join(todo).encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
            got = [l for l in p.stdout.decode("utf-8", "replace").splitlines() if l.endswith("}")]
            out += got
            if p.returncode == 0:
                return out
            if p.returncode == 3:
                die(f"harness failed on enumerated cases: {p.stderr[-800:]!r}")
            bad = json.loads(todo[len(got)])
            out.append(json.dumps({"case": bad["case"], "op": "hang" if p.returncode == 77 else "crash",
                                   "rc": p.returncode}))
            deaths += 1
            todo = todo[len(got) + 1:]
        return out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [l for ls in ex.map(run, range(len(chunks))) for l in ls]


# --------------------------------------------------------------------- TLC

def tlc(module, cfg, wd, env=None, workers=JOBS, timeout=850, partial=False):
    e = dict(ENV, **(env or {}))
    meta = tempfile.mkdtemp(prefix="meta", dir=wd)
    cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g" if workers == 1 else "-Xmx12g",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           encoding="utf-8", errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        if not partial:
            die(f"TLC timed out on {module}")
        o = x.stdout or b""
        return None, o if isinstance(o, str) else o.decode("utf-8", "replace"), 0, 0
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    return p.returncode, p.stdout, (int(m.group(2)) if m else 0), (int(m.group(1)) if m else 0)


def untla(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def main():
    if sys.argv[1:] == ["--setup"]:
        # Nothing is kept for the checks (each one builds what it needs): this
        # only tells early that the harnesses build and that TLC runs.
        refresh()
        for c in sorted({s[0] for p in PLAN.values() for s in p["suites"]}):
            build(c)
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in PLAN:
        die(f"no such property {prop}")
    plan = PLAN[prop]
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="tldr-verif-")
    try:
        code = decide(prop, plan, tier, seed, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(code)


def decide(prop, plan, tier, seed, wd, t0):
    refresh()
    q = 0 if tier == "quick" else 1
    try:
        binaries = {c: build(c) for c in sorted({s[0] for s in plan["suites"]} | {e[0] for e in plan.get("enum", [])})}
    except NotRust as x:
        return not_rust(prop, plan, tier, seed, str(x), t0)
    if plan.get("tool"):
        build_tool(*plan["tool"])
    tb = time.time()
    states = trans = 0
    violations, samples, models = [], [], []

    # 1. the models
    for module, cfgs in plan.get("models", []):
        cfg = cfgs[q] if isinstance(cfgs, (list, tuple)) else cfgs
        if cfg is None:
            continue
        rc, out, d, g = tlc(module, cfg, wd)
        states += d
        trans += g
        models.append({"module": module, "cfg": cfg, "distinct": d, "generated": g, "rc": rc})
        if rc != 0:
            print(out[-3000:])
            # A model that fails says that the specification itself lacks the property.
            die(f"model {module} ({cfg}) does not satisfy its properties")

    # 2. executions of the real code
    lines = []
    def enumerate_cases(e):
        i, (crate, module, cfgs) = e
        cfg = cfgs[q] if isinstance(cfgs, (list, tuple)) else cfgs
        if cfg is None:
            return []
        if isinstance(cfg, dict):
            # Constants: the configuration is written here.
            text = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            text += "".join(f"  {k} = {json.dumps(v)}\n" for k, v in cfg.items())
            cfg = os.path.join(wd, f"enum{i}.cfg")
            open(cfg, "w").write(text)
        path = os.path.join(wd, f"enum{i}.ndjson")
        rc, out, d, g = tlc(module, cfg, wd, {"OUT": path}, workers=1)
        if rc != 0 or not os.path.exists(path):
            print(out[-3000:])
            die(f"cannot enumerate {module} ({cfg})")
        return exec_cases(binaries[crate], path, wd)

    with cf.ThreadPoolExecutor(4) as ex:
        for ls in ex.map(enumerate_cases, enumerate(plan.get("enum", []))):
            lines += ls
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for crate, suite, n in plan["suites"]:
            n = n[q]
            if n <= 0:
                continue
            k = max(1, min(JOBS, n // 20))
            for i in range(k):
                jobs.append(ex.submit(slice_cases, binaries[crate], suite, seed, n * i // k, n * (i + 1) // k, wd))
        for j in jobs:
            lines += j.result()
    tr = time.time()
    if not lines and plan["suites"]:
        die("no case was executed")

    # 3. are they behaviours of the specification?
    bad, skipped, undecided, cut = {}, 0, 0, 0
    step = 12000
    budget = 420 if q == 0 else 7200
    todo = [lines[a:a + step] for a in range(0, len(lines), step)]
    pat = re.compile(r'<<\s*"(NONCONF|SKIPPED)",\s*"([^"]*)",\s*"((?:[^"\\]|\\.)*)"\s*>>')
    broken = 0
    while todo:
        part = todo.pop(0)
        path = os.path.join(wd, "trace.ndjson")
        open(path, "w").write("\n".join(part) + "\n")
        rc, out, d, g = tlc("Trace", "Trace.cfg", wd, {"TRACE": path}, timeout=max(20, budget - (time.time() - tr)), partial=True)
        if rc is None:
            # Some case is too large to be decided in time: what was decided counts.
            cut += 1
        elif rc != 0:
            # The specification has no meaning for some recorded execution: find it.
            if "Error: " not in out:
                die(f"TLC failed ({rc}):\n" + out[-2000:])
            if len(part) == 1:
                bad[json.loads(part[0])["case"]] = "outside of what the specification describes"
                broken += 1
            elif broken < 3:
                h = (len(part) + 3) // 4
                todo = [part[i:i + h] for i in range(0, len(part), h)] + todo
            continue
        states += d
        trans += g
        found = list(pat.finditer(out))
        for m in found:
            if m.group(1) == "SKIPPED":
                skipped += 1
            else:
                bad[m.group(2)] = untla(m.group(3))
        if out.count('"NONCONF"') + out.count('"SKIPPED"') != len(found):
            die("unreadable TLC output:\n" + out[-2000:])

    known = load_known(prop)
    by_case = {}
    if bad:
        for l in lines:
            c = json.loads(l)
            if c["case"] in bad:
                by_case[c["case"]] = c
    reported = set()
    for case, why in sorted(bad.items()):
        k = next((k for k in known if k["case"] == case and k["verdict"] == why), None)
        if k is None and plan.get("only") and not re.search(plan["only"], why):
            undecided += 1   # some other property's concern
            continue
        if k is not None:
            if k["what"] not in reported:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
                reported.add(k["what"])
            continue
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{prop}-{re.sub('[^A-Za-z0-9.-]+', '_', case)}.json")
        json.dump({"property": prop, "case": case, "verdict": why, "trace": by_case.get(case)}, open(rp, "w"), indent=1)
        violations.append((case, why, rp))

    for case, why, rp in violations[:20]:
        print(f"{case}: {why}")
        print(f"VIOLATION property={prop} replay={rp}")
    if len(violations) > 20:
        print(f"... and {len(violations) - 20} more")

    kinds = {}
    for l in lines:
        try:
            c = json.loads(l)
        except ValueError:
            continue
        kinds[c["case"].split("/")[0]] = kinds.get(c["case"].split("/")[0], 0) + 1
    for l in lines[:: max(1, len(lines) // 4)][:4]:
        samples.append(l[:600])
    os.makedirs(EVID, exist_ok=True)
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": len(lines) - skipped,
            "samples": samples, "cases_by_suite": kinds, "skipped_cases": skipped,
            "not_this_property": undecided, "models": models,
            "traces_cut_short": cut,
        },
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(lines)} executions checked against the specification ({skipped} skipped), "
          f"{states} states; build {tb - t0:.0f}s, run {tr - tb:.0f}s, decide {time.time() - tr:.0f}s; "
          f"{len(violations)} violations")
    return 1 if violations else 0


def not_rust(prop, plan, tier, seed, log, t0):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    rp = os.path.join(EVID, "replay", f"{prop}-compile.json")
    json.dump({"property": prop, "case": "compile", "verdict": "the derived code does not compile", "log": log[-20000:]},
              open(rp, "w"), indent=1)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": plan["level"],
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [log[:600]]},
               "wall_s": round(time.time() - t0, 1), "violations": 1},
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("compile: the code derived for some type does not compile")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                k = json.loads(l[9:])
                if k["property"] == prop:
                    out.append(k)
    return out


if __name__ == "__main__":
    main()
