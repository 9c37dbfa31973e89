#!/usr/bin/env python3
"""Decide one property:  check.py C01  |  check.py --replay FILE  |  check.py --setup

Builds the harness binaries against /repo's working tree once per feature
configuration, runs them in parallel shards, merges what they counted into
evidence/<property>.json, and reports.  Exit 0: held on everything explored.
Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself could not run.
"""
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import threading
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "driver"))
from plan import PLAN  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, ".target")
WORK = os.path.join(VERIF, ".work")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
SHARDS = 8
# a case takes milliseconds at most: one that takes this long is tried again on its own
HANG_S = 100
HANG_ALONE_S = 60
# seconds of coverage-guided search per process
GUIDED_S = {"quick": 24, "thorough": 900}
MEMORY = 6 << 30
REPO = "/repo"


class ToolError(Exception):
    pass


def base_env(seed, tier):
    keep = {k: v for k, v in os.environ.items()}
    for k in list(keep):
        if (
            k in ("NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "ALWAYS_COLOR",
                  "TERM", "COLORTERM", "TERM_PROGRAM", "CI", "IGNORE_IS_TERMINAL",
                  "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS",
                  "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUST_BACKTRACE")
            or k.startswith("PROPTEST_") or k.startswith("CARGO_PROFILE_")
        ):
            del keep[k]
    keep["VERIF_SEED"] = str(seed)
    keep["VERIF_TIER"] = tier
    return keep


def feat_name(cfg):
    return "+".join(cfg["features"]) or "none"


def dir_name(cfg):
    n = feat_name(cfg)
    return n + "-guided" if cfg.get("guided") else n


def guided_dir(cfg):
    """Cargo does not see when the compiler wrapper changes"""
    if not cfg.get("guided"):
        return dir_name(cfg)
    with open(os.path.join(HARNESS, "rustc-guided"), "rb") as f:
        return "%s-%08x" % (dir_name(cfg), zlib.crc32(f.read()))


def build(cfg, seed, tier, bins):
    """cargo build of `bins` in one configuration; returns {bin: path}"""
    tdir = os.path.join(TARGET, guided_dir(cfg))
    env = base_env(seed, tier)
    env["CARGO_TARGET_DIR"] = tdir
    env["RUSTUP_TOOLCHAIN"] = "stable"
    # one crate of ours (vcore) uses an unstable library type to build fmt::Formatters
    # with arbitrary options; the code under test is compiled as plain stable
    env["RUSTC_BOOTSTRAP"] = "vcore"
    env["CARGO_TERM_COLOR"] = "never"
    features = list(cfg["features"])
    if cfg.get("guided"):
        features.append("guided")
        env["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustc-guided")
    cmd = ["cargo", "build", "--offline", "--release"]
    for b in bins:
        cmd += ["-p", b]
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build failed (%s):\n%s" % (dir_name(cfg), r.stdout[-6000:]))
    return {b: os.path.join(tdir, "release", b) for b in bins}


def ungeneric(name):
    """A demangled name without what was filled in for type parameters"""
    out, depth, i = [], 0, 0
    while i < len(name):
        c = name[i]
        if depth:
            if c == "<":
                depth += 1
            elif c == ">" and name[i - 1] != "-":
                depth -= 1
        elif c == "<" and out and (out[-1].isalnum() or out[-1] in "_:"):
            depth = 1
        else:
            out.append(c)
        i += 1
    return "".join(out)


OURS = re.compile(r"\b(vcore|vstyles|vstatics|render|tables)::")


def write_map(exe, path):
    """For the guided search: the functions of a program, whose they are (2: of the code under
    test, 1: of the checks, 0: of neither) and a number that instances of one generic share"""
    text = subprocess.run(["nm", "-C", "-S", exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                          text=True).stdout
    numbers, lines = {}, []
    for line in text.splitlines():
        f = re.match(r"([0-9a-f]+) ([0-9a-f]+) [tTwW] (.*)", line)
        if not f:
            continue
        key = ungeneric(f[3])
        whose = 2 if "colorz::" in key else 1 if OURS.search(key) else 0
        lines.append((int(f[1], 16), int(f[1], 16) + int(f[2], 16), whose, numbers.setdefault(key, len(numbers))))
    lines.sort()
    with open(path, "w") as f:
        for x in lines:
            f.write("%d %d %d %d\n" % x)
    return any(x[2] == 2 for x in lines)


def read_current(path):
    """(sequence number, sub, case) of the case a worker was checking"""
    try:
        with open(path, "rb") as f:
            d = f.read()
        seq, n = struct.unpack("<QQ", d[:16])
        sub, _, js = d[16:16 + n].partition(b"\n")
        return seq, sub.decode(), (json.loads(js) if n else None)
    except (OSError, ValueError, struct.error):
        return 0, "", None


def limited(*a, **kw):
    """A process that cannot take all memory with it"""
    p = subprocess.Popen(*a, **kw)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (OSError, ValueError):
        pass
    return p


def alone(exe, prop, name, path, env):
    """Runs one recorded case: its exit status, or None if it does not end"""
    p = limited([exe, prop, name, "--replay", path], env=env, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        return p.wait(timeout=HANG_ALONE_S)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return None


def run_shard(job):
    """The guided search comes on top: where it cannot run, that is noted and the others decide"""
    try:
        return run_one_shard(job)
    except ToolError as e:
        if not job[2].get("guided"):
            raise
        return {"failed": str(e)[-300:]}


def run_one_shard(job):
    exe, prop, cfg, shard, shards, out, replays, env, stop, is_fresh = job
    if stop.is_set():
        return None
    for suffix in ("", ".hashes", ".corpus", ".current"):
        try:
            os.unlink(out + suffix)
        except OSError:
            pass
    log = open(out + ".log", "wb")
    p = limited([exe, prop, feat_name(cfg), str(shard), str(shards), out, replays],
                env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                start_new_session=True)
    last, since, hung, stopped = -1, time.time(), False, None

    def kill():
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()

    while True:
        try:
            rc = p.wait(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            if stop.is_set():
                # something was found elsewhere: what this one finds soon is reported too
                stopped = stopped or time.time()
                if time.time() - stopped > 20:
                    kill()
                    return None
            seq, sub, _ = read_current(out + ".current")
            if seq != last:
                last, since = seq, time.time()
            elif time.time() - since > HANG_S:
                kill()
                rc, hung = 0, True
                break
    log.close()
    with open(out + ".log", errors="replace") as f:
        text = f.read()
    if not hung and rc == 0 and os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        if any(is_fresh(v) for v in res["violations"]):
            stop.set()
        return {"res": res, "log": text, "out": out}
    if hung or (rc < 0 and rc not in (-9, -15)):
        # the process hung or died: a violation if the same case does it again on its own
        seq, sub, case = read_current(out + ".current")
        if case is not None:
            path = os.path.join(replays, "%s-%s-%s-%d.json" % (prop, sub, dir_name(cfg), shard))
            msg = "does not end" if hung else "the process died with signal %d" % -rc
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": sub, "config": feat_name(cfg), "seed": int(env["VERIF_SEED"]),
                           "shard": shard, "message": msg, "case": case}, f, indent=1)
            again = alone(exe, prop, feat_name(cfg), path, env)
            if again is None or again == 1 or (again < 0 and again not in (-9, -15)):
                v = {"sub": sub, "message": msg, "replay": path}
                if is_fresh(v):
                    stop.set()
                return {"res": {"config": dir_name(cfg), "shard": shard, "subs": {}, "violations": [v]},
                        "log": text, "out": out}
        if hung:
            raise ToolError("%s %s: no progress for %d s in sub-check %s" % (prop, dir_name(cfg), HANG_S, sub))
    raise ToolError("%s %s shard %d ended with %d:\n%s" % (prop, dir_name(cfg), shard, rc, text[-3000:]))


def known_findings():
    """Lines 'known: property=<id> sub=<sub> case=<json> :: text'"""
    res = []
    try:
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("known: "):
                    head, _, text = line[7:].partition(" :: ")
                    prop, sub, case = head.split(" ", 2)
                    res.append({"property": prop.split("=", 1)[1], "sub": sub.split("=", 1)[1],
                                "case": json.loads(case.split("=", 1)[1]), "text": text.strip()})
    except OSError:
        pass
    return res


def report(prop, known, fresh):
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if not fresh:
        return 0
    for v in fresh[:20]:
        print("%s [%s]: %s" % (v["sub"], v["config"], v["message"]))
    fresh.sort(key=lambda v: os.path.getsize(v["replay"]))
    print("VIOLATION property=%s replay=%s" % (prop, fresh[0]["replay"]))
    return 1


def offered(prop, cfg, items, seed, tier):
    """What is promised to exist in a feature set, but does not: a program that names it does not
    compile, although the crate and a program that does not name it do"""
    d = os.path.join(WORK, prop, "offers")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "offers"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'colorz = { path = "%s" }\n[features]\n' % REPO)
        for x in ("alloc", "std", "supports-color", "strip-colors"):
            f.write('%s = ["colorz/%s"]\n' % (x, x))
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = base_env(seed, tier)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "offers")
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["CARGO_TERM_COLOR"] = "never"

    def compiles(body):
        with open(os.path.join(d, "src", "main.rs"), "w") as f:
            f.write("fn main() { %s }\n" % body)
        cmd = ["cargo", "check", "--offline"]
        if cfg["features"]:
            cmd += ["--features", ",".join(cfg["features"])]
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout

    if compiles(" ".join(items))[0]:
        return None
    ok, out = compiles("let _ = colorz::mode::get_coloring_mode();")
    if not ok:
        raise ToolError("build failed (%s):\n%s" % (dir_name(cfg), out[-6000:]))
    bad = [x for x in items if not compiles(x)[0]]
    return "not available with features %s: %s" % (dir_name(cfg), " ".join(bad))


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    work = os.path.join(WORK, prop)
    replays = os.path.join(work, "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(replays)
    os.makedirs(EVIDENCE, exist_ok=True)
    cfgs = list(plan["configs"])
    if tier == "thorough":
        cfgs += plan.get("more", [])
    if plan.get("guided"):
        cfgs.append(dict(plan["guided"], guided=True, optional=True))
    notes = []

    def one(cfg):
        try:
            return build(cfg, seed, tier, plan["bins"])
        except ToolError as e:
            if cfg.get("optional"):
                notes.append("configuration %s was left out: %s" % (dir_name(cfg), str(e)[-400:]))
                return None
            raise

    def one_worker(cfg):
        """the driver is built once; what has the configuration is the worker it talks to"""
        return build(cfg, seed, tier, ["worker"])["worker"]

    known = [k for k in known_findings() if k["property"] == prop]

    def is_fresh(v):
        with open(v["replay"]) as f:
            case = json.load(f)["case"]
        return not any(k["sub"] == v["sub"] and k["case"] == case for k in known)

    stop = threading.Event()
    if plan.get("offers"):
        for cfg in cfgs:
            msg = offered(prop, cfg, plan["offers"], seed, tier)
            if msg:
                path = os.path.join(replays, "%s-offers-%s.json" % (prop, dir_name(cfg)))
                with open(path, "w") as f:
                    json.dump({"property": prop, "sub": "offers", "config": dir_name(cfg), "seed": seed, "shard": 0,
                               "message": msg, "case": plan["offers"]}, f, indent=1)
                v = {"sub": "offers", "message": msg, "replay": path, "config": dir_name(cfg)}
                if is_fresh(v):
                    return report(prop, known, [v])

    with ThreadPoolExecutor(4) as ex:
        if plan.get("worker"):
            driver = ex.submit(build, {"features": []}, seed, tier, plan["bins"])
            workers = list(ex.map(one_worker, cfgs))
            built = [driver.result()] * len(cfgs)
        else:
            workers = [None] * len(cfgs)
            built = list(ex.map(one, cfgs))
    t_build = time.time() - t0
    env = base_env(seed, tier)
    jobs = []
    for cfg, b, w in zip(cfgs, built, workers):
        if b is None:
            continue
        job_env = dict(env, VERIF_WORKER=w) if w else env
        if cfg.get("guided"):
            # the time is shared out among the sub-checks
            subs = subprocess.run([b[plan["bins"][0]], prop, feat_name(cfg), "--list"], env=env,
                                  stdout=subprocess.PIPE, text=True).stdout.split()
            gmap = os.path.join(work, "functions")
            if not subs or not write_map(b[plan["bins"][0]], gmap):
                notes.append("nothing to search with guidance")
                continue
            total = GUIDED_S[tier] * plan.get("guided_share", 1)
            job_env = dict(env, VERIF_GUIDED_S="%.2f" % (total / len(subs)), VERIF_GUIDED_MAP=gmap)
        shards = cfg.get("shards", plan.get("shards", SHARDS))
        for i in range(shards):
            jobs.append((b[plan["bins"][0]], prop, cfg, i, shards,
                         os.path.join(work, "%s.%d" % (dir_name(cfg), i)), replays, job_env, stop, is_fresh))
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        results = list(ex.map(run_shard, jobs))

    # merge
    subs, violations, hashes = {}, [], set()
    corpora = {}
    for job, r in zip(jobs, results):
        name = dir_name(job[2])
        if r is None:
            notes.append("a shard of %s was stopped after a violation was found" % name)
            continue
        if "failed" in r:
            notes.append("a process of the guided search was left out: " + r["failed"])
            continue
        for s, st in r["res"]["subs"].items():
            t = subs.setdefault(s, {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [],
                                    "exhaustive": st["exhaustive"], "by_config": {}, "cpu_s": 0.0})
            t["evaluations"] += st["evaluations"]
            t["nontrivial"] += st["nontrivial"]
            t["cpu_s"] = round(t["cpu_s"] + st["seconds"], 2)
            t["by_config"][name] = t["by_config"].get(name, 0) + st["evaluations"]
            for k, v in st["labels"].items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            if len(t["samples"]) < 2:
                t["samples"] += [{"config": name, "sub": s, "case": c} for c in st["samples"]][:2 - len(t["samples"])]
        for v in r["res"]["violations"]:
            v["config"] = name
            violations.append(v)
        try:
            with open(r["out"] + ".hashes", "rb") as f:
                d = f.read()
            hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d))
        except OSError:
            pass
        if os.path.exists(r["out"] + ".corpus"):
            with open(r["out"] + ".corpus") as f:
                corpora[name] = [json.loads(x) for x in f]
    compared = 0
    if len(corpora) > 1:
        names = sorted(corpora)
        ref = corpora[names[0]]
        for n in names[1:]:
            for a, b in zip(ref, corpora[n]):
                if a["case"] != b["case"]:
                    raise ToolError("corpora are not aligned")
                compared += 1
                if a["out"] != b["out"]:
                    path = os.path.join(replays, "%s-%s-%s.json" % (prop, a["sub"], n))
                    msg = "configurations %s and %s differ: %s against %s" % (names[0], n, a["out"], b["out"])
                    with open(path, "w") as f:
                        json.dump({"property": prop, "sub": a["sub"], "config": n, "against": names[0], "seed": seed,
                                   "shard": 0, "message": msg, "case": a["case"]}, f, indent=1)
                    violations.append({"sub": a["sub"], "message": msg, "replay": path, "config": n})
                    break

    fresh = [v for v in violations if is_fresh(v)]

    samples = [s for st in subs.values() for s in st["samples"]][:12]
    cov = {
        "evaluations": sum(s["evaluations"] for s in subs.values()),
        "distinct_nontrivial": len(hashes),
        "rule": plan["rule"],
        "samples": samples,
        "configurations": [dir_name(c) for c, b in zip(cfgs, built) if b],
        "sub_checks": {k: {x: s[x] for x in ("evaluations", "nontrivial", "labels", "exhaustive", "by_config", "cpu_s")}
                       for k, s in sorted(subs.items())},
        "build_s": round(t_build, 1),
    }
    if compared:
        cov["compared_between_configurations"] = compared
    if subs and all(s["exhaustive"] for s in subs.values()):
        cov["exhaustive"] = True
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan["level"], "coverage": cov,
        "assumptions": plan.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if report(prop, known, fresh):
        return 1
    print("OK property=%s evaluations=%d distinct_nontrivial=%d configurations=%d wall=%.1fs (build %.1fs)" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], len(cov["configurations"]), ev["wall_s"], t_build))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = r["property"]
    plan = PLAN[prop]
    if r["sub"] == "offers":
        cfg = next(c for c in list(plan["configs"]) + plan.get("more", []) if dir_name(c) == r["config"])
        msg = offered(prop, cfg, r["case"], r.get("seed", 1), "quick")
        print(msg or "holds")
        if msg:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
        return 1 if msg else 0
    by_name = {dir_name(c): c for c in list(plan["configs"]) + plan.get("more", [])}
    env = base_env(r.get("seed", 1), "quick")
    outs = []
    for name in [r["config"]] + ([r["against"]] if "against" in r else []):
        if plan.get("worker"):
            env["VERIF_WORKER"] = build(by_name[name], r.get("seed", 1), "quick", ["worker"])["worker"]
            exe = build({"features": []}, r.get("seed", 1), "quick", plan["bins"])[plan["bins"][0]]
        else:
            exe = build(by_name[name], r.get("seed", 1), "quick", plan["bins"])[plan["bins"][0]]
        try:
            p = subprocess.run([exe, prop, name, "--replay", os.path.abspath(path)], env=env, stdout=subprocess.PIPE,
                               text=True, timeout=HANG_ALONE_S)
            print(p.stdout, end="")
            outs.append((p.returncode, p.stdout))
        except subprocess.TimeoutExpired:
            print("REPLAY: does not end")
            outs.append((1, ""))
    bad = any(rc != 0 for rc, _ in outs) or ("against" in r and outs[0][1] != outs[1][1])
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
    return 1 if bad else 0


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "--setup":
            # checks build what they need themselves; this only shows that building works
            bins = sorted({b for p in PLAN.values() for b in p["bins"]})
            build({"features": []}, seed, tier, bins)
            sys.exit(0)
        sys.exit(check(sys.argv[1], tier, seed))
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)


main()
