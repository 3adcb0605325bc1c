#!/usr/bin/env python3
"""Deterministic-simulation check of one property.

  check.py PROP [--tier quick|thorough] [--seed N]
  check.py PROP --replay FILE        re-executes a replay file
  check.py --setup                   toolchain self-test (setup_cmd)
  check.py --determinism [PROP...]   same seeds, other processes, diff hashes

exit 0: held on everything explored;  exit 1: VIOLATION line printed;
exit 2: the check itself could not answer.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
NPROC = 8

sys.path.insert(0, VERIF)
from props_table import PROPS, FLAVOURS  # noqa: E402


class CheckError(Exception):
    pass


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "build", "test")]
        for f in files:
            if f.endswith((".hpp", ".cpp", ".inl", ".h", ".c", ".hpp.in")):
                out.append(os.path.join(root, f))
    return out


def verif_files():
    return (glob.glob(os.path.join(VERIF, "sim", "*")) +
            glob.glob(os.path.join(VERIF, "props", "*")) +
            [os.path.join(VERIF, "props_table.py")])


def build(binary):
    """Builds the harness binary from the current working tree of /repo."""
    spec = PROPS["binaries"][binary]
    fl = FLAVOURS[spec["flavour"]]
    key = file_hash(repo_files() + verif_files())[:20]
    out = os.path.join(BUILD, "%s-%s" % (binary, key))
    exe = os.path.join(out, binary)
    if os.path.exists(exe):
        return exe, 0.0
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    # stale builds of this binary go
    for d in glob.glob(os.path.join(BUILD, binary + "-*")):
        shutil.rmtree(d, ignore_errors=True)
    tmp = "%s.tmp.%d" % (out, os.getpid())
    os.makedirs(tmp)
    jobs = []
    for s in spec["sim"]:
        jobs.append((fl["sim_cc"], os.path.join(VERIF, "sim", s + ".cpp"),
                     os.path.join(tmp, "sim_" + s + ".o"), True))
    for s in spec["props"]:
        jobs.append((fl["code_cc"], os.path.join(VERIF, "props", s + ".cpp"),
                     os.path.join(tmp, "prop_" + s + ".o"), True))
    lib = []
    for s in sorted(glob.glob(os.path.join(REPO, "datas", "*.cpp")) +
                    glob.glob(os.path.join(REPO, "datas", "encrypt", "*.cpp")) +
                    glob.glob(os.path.join(REPO, "uni", "*.cpp"))):
        o = os.path.join(tmp, "repo_" + os.path.relpath(s, REPO)
                         .replace("/", "_") + ".o")
        lib.append(o)
        jobs.append((fl["code_cc"], s, o, False))
    for s in fl.get("extra", []):
        o = os.path.join(tmp, "extra_" + os.path.basename(s) + ".o")
        lib.append(o)
        jobs.append((fl["code_cc"], s, o, True))

    def comp(j):
        cc, src, obj, must = j
        r = sh(cc + ["-I" + REPO, "-I" + VERIF, "-c", src, "-o", obj])
        if r.returncode and "alt_cc" in fl and cc is fl["code_cc"]:
            r = sh(fl["alt_cc"] + ["-I" + REPO, "-I" + VERIF, "-c", src,
                                   "-o", obj])
        return j, r

    errs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for j, r in ex.map(comp, jobs):
            if r.returncode:
                if j[3]:
                    errs.append(r.stderr.decode(errors="replace")[-3000:])
                elif j[2] in lib:
                    # only counts when the harness needs it at link time
                    lib.remove(j[2])
                    sys.stderr.write("note: %s did not compile\n" % j[1])
    if not errs:
        ar = os.path.join(tmp, "libcode.a")
        r = sh(["ar", "rcs", ar] + lib)
        objs = [j[2] for j in jobs if j[3]]
        r = sh(fl["ld"] + objs + [ar] + fl["libs"] +
               ["-o", os.path.join(tmp, binary)])
        if r.returncode:
            errs.append(r.stderr.decode(errors="replace")[-3000:])
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("harness '%s' does not build:\n%s" %
                         (binary, "\n".join(errs)))
    for o in glob.glob(os.path.join(tmp, "*.o")) + glob.glob(
            os.path.join(tmp, "*.a")):
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, time.time() - t0


# ---------------------------------------------------------------- findings

def findings(prop):
    known, fixed = [], []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == prop:
                fixed.append((m.group(2), m.group(3).strip()))
    return known, fixed


# ------------------------------------------------------------------ search

def worker(exe, prop, seed, first, count, wall, hf, known):
    r = sh([exe, "--worker", prop, str(seed), str(first), str(NPROC),
            str(count), str(wall), hf] + known, timeout=wall * 2 + 300)
    if r.returncode:
        raise CheckError("worker failed (%d): %s" %
                         (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
    return json.loads(r.stdout.decode(errors="replace"))


def hashes(exe, prop, seed, first, stride, count):
    r = sh([exe, "--hash", prop, str(seed), str(first), str(stride),
            str(count)])
    if r.returncode:
        raise CheckError("hash run failed")
    res = {}
    for line in r.stdout.decode().splitlines():
        f = line.split()
        res[int(f[0])] = tuple(f[1:])
    return res


def replay_file(exe, prop, tape):
    tf = os.path.join(REPLAYS, ".tape.%d.%d" % (os.getpid(), time.time_ns()))
    os.makedirs(REPLAYS, exist_ok=True)
    with open(tf, "w") as f:
        for s in tape:
            f.write("%d %s\n" % (len(s), " ".join(map(str, s))))
    try:
        r = sh([exe, "--replay", prop, tf])
    finally:
        os.unlink(tf)
    if r.returncode:
        raise CheckError("replay failed to run")
    return json.loads(r.stdout.decode(errors="replace"))


def confirm(exe, prop, seed, w, budget):
    """Violation gate: the same seed fails the same way twice in fresh
    processes; the minimised tape does too. Returns the replay path."""
    idx = w["v_index"]
    a = hashes(exe, prop, seed, idx, 1, 1)[idx]
    b = hashes(exe, prop, seed, idx, 1, 1)[idx]
    if a != b or a[1] != w["v_class"]:
        return None, "seed %d is not repeatable: %s %s %s" % (
            idx, w["v_class"], a, b)
    for bud in (budget, 0.0):
        r = sh([exe, "--minimise", prop, str(seed), str(idx), str(bud)],
               timeout=budget * 3 + 240)
        if r.returncode:
            continue
        res = json.loads(r.stdout.decode(errors="replace"))
        x = replay_file(exe, prop, res["tape"])
        y = replay_file(exe, prop, res["tape"])
        if (x["class"], x["hash"]) == (y["class"], y["hash"]) == \
                (res["class"], res["hash"]) and x["class"] == w["v_class"]:
            path = os.path.join(REPLAYS, "%s-%s.json" % (prop, res["seed"]))
            res.update(verif_seed=seed, how="check.py %s --replay %s" %
                       (prop, path))
            with open(path, "w") as f:
                json.dump(res, f, indent=1)
            return path, res
    return None, "the minimised tape of seed %d is not repeatable" % idx


def run_check(prop, tier, seed):
    t0 = time.time()
    spec = PROPS["checks"][prop]
    exe, built = build(spec["binary"])
    known, fixed = findings(prop)
    kcls = [k for k, _ in known]
    runs, wall = spec[tier]
    per = (runs + NPROC - 1) // NPROC
    hdir = os.path.join(BUILD, "h.%s.%d" % (prop, os.getpid()))
    os.makedirs(hdir, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(worker, exe, prop, seed, i, per, wall,
                            os.path.join(hdir, str(i)), kcls)
                  for i in range(NPROC)]
            ws = [f.result() for f in fs]
        shapes = set()
        nontrivial = 0
        for i in range(NPROC):
            with open(os.path.join(hdir, str(i)), "rb") as f:
                d = f.read()
            for k in range(0, len(d) - 7, 8):
                shapes.add(d[k:k + 8])
                nontrivial += 1
    finally:
        shutil.rmtree(hdir, ignore_errors=True)
    search_wall = max(w["wall"] for w in ws)
    # Determinism: a sample of seeds again, in other processes, at another
    # stride; event-log hashes must agree.
    nsample = 16 if tier == "quick" else 128
    det_bad = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        f1 = ex.submit(hashes, exe, prop, seed, 0, 1, nsample)
        f2 = [ex.submit(hashes, exe, prop, seed, i, 4, nsample // 4)
              for i in range(4)]
        h1 = f1.result()
        h2 = {}
        for f in f2:
            h2.update(f.result())
    for k in h1:
        if k in h2 and h1[k] != h2[k]:
            det_bad.append(k)
    for w in ws:  # runs inside batches against runs in fresh processes
        for k, h in w["hashes"].items():
            if int(k) in h1 and h1[int(k)][2] != h:
                det_bad.append(int(k))
    counters = {}
    for w in ws:
        for k, (n, r) in w["counters"].items():
            c = counters.setdefault(k, [0, 0])
            c[0] += n
            c[1] += r
    total = sum(w["runs"] for w in ws)
    viol = [w for w in ws if w["violation"]]
    viol.sort(key=lambda w: w["v_index"])
    path, info, notes = None, None, []
    for w in viol[:4]:
        path, info = confirm(exe, prop, seed, w, 20 if tier == "quick" else 60)
        if path:
            break
        notes.append(info)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(shapes),
            "rule": spec["rule"],
            "samples": [s for w in ws for s in w["samples"][:1]][:4],
            "simulated_runs": total,
            "trivial_runs": sum(w["trivial"] for w in ws),
            "nontrivial_runs": nontrivial,
            "seeds": "VERIF_SEED=%d, run indices 0..%d" % (
                seed, max(0, per * NPROC - 1)),
            "runs_per_hour": int(total / max(search_wall, 0.001) * 3600),
            "simulated_seconds": round(sum(w["sim_ns"] for w in ws) / 1e9, 3),
            "scheduler_or_io_steps": sum(w["steps"] for w in ws),
            "faults_injected": {k[6:]: {"times": n, "runs": r}
                                for k, (n, r) in sorted(counters.items())
                                if k.startswith("fault.")},
            "reach_probes": {k[6:]: {"times": n, "runs": r}
                             for k, (n, r) in sorted(counters.items())
                             if k.startswith("probe.")},
            "other_counters": {k: n for k, (n, r) in sorted(counters.items())
                               if not k.startswith(("fault.", "probe."))},
            "distinct_measure": spec.get("measure", PROPS["measure"]),
            "real_components": spec["real"],
            "stubbed_components": spec["stub"],
            "determinism_sample": {"seeds": len(h1), "mismatches": len(det_bad)},
            "known_findings_hit": sum(w["known"] for w in ws),
            "failed_only_inside_a_batch": sum(w["batch_only"] for w in ws),
            "harness_stalls_retried": sum(w["stalls"] for w in ws),
        },
        "assumptions": spec.get("assumptions", PROPS["assumptions"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if path else 0,
    }
    if path:
        ev["coverage"]["violation"] = {k: info[k] for k in
                                       ("class", "message", "seed", "index",
                                        "minimiser_runs")}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s, built in %.1f s"
          % (prop, tier, total, len(shapes), search_wall, built))
    for cls, txt in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    if path:
        print("  class:   %s" % info["class"])
        print("  message: %s" % info["message"])
        print_places(exe, info["message"])
        print("  seed:    %s (run %d), minimised to %d choices" % (
            info["seed"], info["index"], sum(map(len, info["tape"]))))
        for line in info["trace"].splitlines()[-25:]:
            print("  | " + line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if viol:
        raise CheckError("a violation could not be confirmed: %s" %
                         "; ".join(map(str, notes)))
    if det_bad:
        raise CheckError("runs %s are not deterministic" % det_bad[:5])
    return 0


def print_places(exe, msg):
    """Source lines of the code offsets a data race names."""
    for off in dict.fromkeys(re.findall(r"code offset 0x([0-9a-f]+)", msg)):
        try:
            out = subprocess.run(
                ["addr2line", "-Cfie", exe, hex(int(off, 16) - 1)],
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                timeout=20).stdout.split("\n")
        except (OSError, subprocess.SubprocessError):
            return
        print("  0x%s: %s" % (off, "; in ".join(
            "%s at %s" % (out[i], out[i + 1])
            for i in range(0, min(len(out) - 1, 8), 2))))


def do_replay(prop, path):
    exe, _ = build(PROPS["checks"][prop]["binary"])
    want = json.load(open(path))
    got = replay_file(exe, prop, want["tape"])
    print(got["trace"])
    print("class=%s hash=%s" % (got["class"] or "-", got["hash"]))
    if got["status"] in (0, 1) and not got["class"]:
        print("no violation on this tree")
        return 0
    print(got["message"])
    print_places(exe, got["message"])
    print("exact: %s" % ((got["class"], got["hash"]) ==
                         (want["class"], want["hash"])))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def do_determinism(props, n=256):
    bad = 0
    for p in props or sorted(PROPS["checks"]):
        exe, _ = build(PROPS["checks"][p]["binary"])
        for seed in (1, 7):
            with cf.ThreadPoolExecutor(NPROC) as ex:
                a = ex.submit(hashes, exe, p, seed, 0, 1, n)
                bs = [ex.submit(hashes, exe, p, seed, i, 16, n // 16)
                      for i in range(16)]
                a = a.result()
                b = {}
                for f in bs:
                    b.update(f.result())
            d = [k for k in a if a[k] != b.get(k)]
            bad += len(d)
            print("%s seed %d: %d runs twice, %d differ %s" % (
                p, seed, len(a), len(d), d[:5]))
    return 1 if bad else 0


def do_setup():
    for t in ("g++-9", "g++", "ar"):
        if not shutil.which(t):
            print("missing tool " + t)
            return 1
    os.makedirs(BUILD, exist_ok=True)
    for b in sorted(PROPS["binaries"]):
        try:
            exe, s = build(b)
            print("built %s in %.1f s" % (b, s))
        except CheckError as e:
            print(e)
            return 1
    return 0


def main():
    a = sys.argv[1:]
    try:
        if "--setup" in a:
            return do_setup()
        if "--determinism" in a:
            a.remove("--determinism")
            return do_determinism(a)
        prop = a[0]
        if "--replay" in a:
            return do_replay(prop, a[a.index("--replay") + 1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if "--seed" in a:
            seed = int(a[a.index("--seed") + 1])
        return run_check(prop, tier, seed)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
