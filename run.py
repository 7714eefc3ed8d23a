#!/usr/bin/env python3
"""Runner of the libnurbs runtime monitors.

  run.py check <ID> [--tier quick|thorough]   build from /repo's working tree, run the monitors of one property
  run.py replay <file>                        re-run the case recorded in a replay file
  run.py setup                                pre-build everything (optional: checks build what they need)

exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".build"))
NPROC = min(8, os.cpu_count() or 8)
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = "clang++-18"
BASE = ["-std=c++23", "-stdlib=libc++", "-w", "-pthread", "-isystem", "/usr/include/eigen3"]
HARD = ["-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE"]
VARIANTS = {
    # asserts on, memory and UB sanitizers, hardened containers, poisoned uninitialised values
    "san": dict(
        cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                "-fno-sanitize=vptr", "-ftrivial-auto-var-init=pattern", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-DVF_SAN=1"] + HARD,
        libflags=["-fsanitize-coverage=inline-8bit-counters,pc-table"],
        ldflags=["-fsanitize=address,undefined"]),
    # what users ship: optimised, asserts off
    "rel": dict(cflags=["-O2", "-DNDEBUG", "-DVF_REL=1"],
                libflags=["-fsanitize-coverage=inline-8bit-counters,pc-table"], ldflags=[]),
    "tsan": dict(cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVF_TSAN=1"],
                 libflags=["-fsanitize-coverage=inline-8bit-counters,pc-table"],
                 ldflags=["-fsanitize=thread"]),
    # plain build for valgrind memcheck (thorough)
    "vg": dict(cflags=["-O1", "-g1", "-DVF_VG=1"], libflags=[], ldflags=[]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:max_allocation_size_mb=4096:"
                    "hard_rss_limit_mb=3500:max_malloc_fill_size=1048576:malloc_fill_byte=255:free_fill_byte=254:"
                    "max_free_fill_size=4096:detect_stack_use_after_return=1:detect_container_overflow=1:"
                    "strict_string_checks=1:check_initialization_order=1:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:history_size=4:second_deadlock_stack=1",
}


class CheckError(Exception):
    pass


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_hdr_cache = {}


def headers_hash(root):
    if root not in _hdr_cache:
        fs = sorted(f for f in glob.glob(os.path.join(root, "**", "*"), recursive=True)
                    if os.path.isfile(f) and not f.endswith((".cpp", ".o")))
        _hdr_cache[root] = sh256(*[x for f in fs for x in (os.path.relpath(f, root), rd(f))])
    return _hdr_cache[root]


def lib_sources():
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    if not src:
        raise CheckError("no library sources found under %s/src" % REPO)
    return src


def compile_one(variant, src, is_lib):
    v = VARIANTS[variant]
    flags = BASE + v["cflags"] + (v["libflags"] if is_lib else []) + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    if not is_lib:
        flags += ["-I", os.path.join(VERIF, "harness")]
    key = sh256(CXX, " ".join(flags), os.path.relpath(src, REPO if is_lib else VERIF), rd(src),
                headers_hash(os.path.join(REPO, "include")), headers_hash(os.path.join(REPO, "src")),
                "" if is_lib else headers_hash(os.path.join(VERIF, "harness")))
    obj = os.path.join(CACHE, variant, os.path.basename(src) + "-" + key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError("compiling %s (%s) failed:\n%s" % (src, variant, r.stdout.decode(errors="replace")[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(targets):
    """targets: list of (variant, group). Returns {(variant, group): binary}."""
    jobs = {}
    libs = lib_sources()
    for variant, group in targets:
        for s in libs:
            jobs[(variant, s, True)] = None
        for s in (os.path.join(VERIF, "harness", n) for n in ("main.cpp", "common.cpp", group + ".cpp")):
            jobs[(variant, s, False)] = None
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[1]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = {j: ex.submit(compile_one, *j) for j in order}
        objs = {j: f.result() for j, f in futs.items()}
    bins = {}

    def link(t):
        variant, group = t
        o = [objs[(variant, s, True)] for s in libs] + \
            [objs[(variant, os.path.join(VERIF, "harness", n), False)] for n in ("main.cpp", "common.cpp", group + ".cpp")]
        out = os.path.join(CACHE, variant, "%s-%s" % (group, sh256(*o)))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX, "-stdlib=libc++", "-pthread", *VARIANTS[variant]["ldflags"], *o, "-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError("linking %s (%s) failed:\n%s" % (group, variant, r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, out)
        return out
    with cf.ThreadPoolExecutor(4) as ex:
        for t, b in zip(targets, ex.map(link, targets)):
            bins[t] = b
    return bins


def limits(variant):
    def f():
        if variant in ("rel",):
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def read_progress(p):
    try:
        b = rd(p)
        cs = int.from_bytes(b[0:8], "little", signed=True)
        done = int.from_bytes(b[8:16], "little", signed=True)
        op = b[16:144].split(b"\0")[0].decode(errors="replace")
        return cs, done, op
    except Exception:
        return -1, 0, ""


def classify(rc, err):
    """(key, headline) of an abnormal end."""
    for line in err.splitlines():
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", line)
        if m:
            return "asan-" + m.group(1), line.strip()
        m = re.search(r"(\S+:\d+:\d+): runtime error: (.*)", line)
        if m:
            return "ubsan", line.strip()
        if "WARNING: ThreadSanitizer" in line:
            return "tsan", line.strip()
        if "Assertion" in line and "failed" in line:
            return "assert", line.strip()
        if "assertion" in line and "failed" in line:
            return "hardening", line.strip()
        if "VERIF-HANG" in line:
            return "hang", line.strip()
        if "VERIF-MEMORY" in line:
            return "memory", line.strip()
        if "rss limit exhausted" in line:
            return "memory", line.strip()
    if rc == -4:
        return "hardening", "hardened container or checked operation trapped (SIGILL)"
    return "crash", "ended with status %d" % rc


hung = threading.Event()


def again(binary, pid, seed, variant, tier, cs, work, tag, wrapper):
    """Re-runs one case alone; True if it fails again."""
    scratch = os.path.join(work, tag + ".again")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, LC_ALL="C", **SAN_ENV)
    cmd = (wrapper or []) + [binary, "--prop", pid, "--seed", str(seed), "--from", str(cs), "--to", str(cs + 1), "--step", "1", "--tier", tier,
                             "--variant", variant, "--out", os.path.join(scratch, "o"), "--progress", os.path.join(scratch, "p"),
                             "--scratch", scratch, "--budget", "0"]
    try:
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, preexec_fn=limits(variant), cwd=scratch,
                              timeout=90).returncode != 0
    except subprocess.TimeoutExpired:
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_shard(binary, pid, seed, variant, tier, frm, to, step, work, tag, budget, wrapper=None, max_crash=2):
    """Runs one shard, continuing after a crash; returns dict of merged results."""
    res = dict(parts=[], failures=[])
    if hung.is_set():
        return res  # a confirmed hang costs minutes per shard; one is enough
    cur = frm
    crashes = 0
    t_end = time.time() + budget * 1.5 + 120
    while cur < to:
        out = os.path.join(work, "%s-%d.json" % (tag, crashes))
        prog = os.path.join(work, "%s-%d.prog" % (tag, crashes))
        scratch = os.path.join(work, "%s-%d.scratch" % (tag, crashes))
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["LC_ALL"] = "C"
        cmd = (wrapper or []) + [binary, "--prop", pid, "--seed", str(seed), "--from", str(cur), "--to", str(to), "--step", str(step),
                                 "--tier", tier, "--variant", variant, "--out", out, "--progress", prog, "--scratch", scratch,
                                 "--budget", str(budget)]
        with open(os.path.join(work, tag + ".err"), "wb") as ef:
            try:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, preexec_fn=limits(variant), cwd=scratch,
                                   timeout=max(30, t_end - time.time()))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -1000
        shutil.rmtree(scratch, ignore_errors=True)
        err = rd(os.path.join(work, tag + ".err")).decode(errors="replace")
        if rc == 0:
            part = json.loads(rd(out))
            res["parts"].append(part)
            for f in part["failures"]:
                res["failures"].append(dict(f, variant=variant))
            break
        if rc == 3:
            raise CheckError("worker refused to start: " + err[-500:])
        cs, done, op = read_progress(prog)
        if cs < 0:
            raise CheckError("worker ended before its first case (status %s): %s" % (rc, err[-1500:]))
        if rc == -1000:
            key, head = "hang", "case did not finish within the wall-clock limit"
        elif rc == -9:
            key, head = "memory", "worker was killed (out of memory?)"
        else:
            key, head = classify(rc, err)
        if key in ("hang", "memory") and not again(binary, pid, seed, variant, tier, cs, work, tag, wrapper):
            key = None  # the case passes on its own: the machine was busy, nothing to report
        res["parts"].append(dict(cases=done + 1, nontrivial=done, events={}, sigs=[], profiles=[], edges_total=0, edges="", samples=[]))
        if key == "hang":
            hung.set()
        if key:
            res["failures"].append({"case": cs, "key": key, "msg": "%s in %s | %s" % (head, op or "?", err[-1800:]), "variant": variant})
        crashes += 1
        cur = cs + step
        if crashes >= max_crash or key == "hang":
            break
    return res


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                known.append(dict(prop=m.group(1), rx=re.compile(m.group(2)), text=m.group(3)))
    return known


def write_replay(pid, tier, seed, f):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (pid, f["variant"], f["case"]))
    with open(p, "w") as fh:
        json.dump(dict(property=pid, tier=tier, seed=seed, variant=f["variant"], case=f["case"], key=f["key"], message=f["msg"],
                       rerun="python3 %s/run.py replay %s" % (VERIF, p)), fh, indent=1)
    return p


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    plan = spec[tier]
    group = spec["group"]
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    bins = build([(v if v != "vg" else "vg", group) for v in plan])
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    failures, per_variant = [], {}
    try:
        tasks = []
        with cf.ThreadPoolExecutor(spec.get("workers", NPROC)) as ex:
            for variant, n in plan.items():
                budget = spec.get("budget", {}).get(tier, 240 if tier == "quick" else 1500)
                shards = min(spec.get("shards", NPROC), max(1, n))
                wrapper = ["valgrind", "-q", "--error-exitcode=98", "--track-origins=no"] if variant == "vg" else None
                for s in range(shards):
                    tasks.append((variant, ex.submit(run_shard, bins[(variant, group)], pid, seed, variant, tier, s, n, shards,
                                                     work, "%s-%d" % (variant, s), budget, wrapper)))
            for variant, t in tasks:
                r = t.result()
                pv = per_variant.setdefault(variant, dict(cases=0, nontrivial=0, events={}, sigs=set(), profiles=set(), edges=0,
                                                          edges_total=0, samples=[], edgebits=0, truncated=0))
                for p in r["parts"]:
                    pv["cases"] += p["cases"]
                    pv["nontrivial"] += p["nontrivial"]
                    pv["truncated"] += 1 if p.get("stopped") else 0
                    for k, v in p["events"].items():
                        pv["events"][k] = max(pv["events"].get(k, 0), v) if k.startswith("max_") else pv["events"].get(k, 0) + v
                    pv["sigs"].update(p["sigs"])
                    pv["profiles"].update(p["profiles"])
                    if p["edges"]:
                        pv["edgebits"] |= int(p["edges"], 16)
                        pv["edges_total"] = p["edges_total"]
                    pv["samples"] += p["samples"]
                failures += r["failures"]
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = [k for k in load_known() if k["prop"] == pid]
    new, seen_known = [], []
    for f in failures:
        hit = next((k for k in known if k["rx"].search(f["key"] + " " + f["msg"])), None)
        if hit:
            seen_known.append(hit)
        else:
            new.append(f)
    for k in {id(k): k for k in seen_known}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))

    sigs, events, samples = set(), {}, []
    for variant, pv in per_variant.items():
        sigs |= pv["sigs"]
        samples += pv["samples"][:2]
        for k, v in pv["events"].items():
            events[k] = max(events.get(k, 0), v) if k.startswith("max_") else events.get(k, 0) + v
    total = sum(p["cases"] for p in per_variant.values())
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=total, distinct_nontrivial=len(sigs), rule=spec["rule"], samples=samples[:4] or ["(none)"],
                            monitor_events=events,
                            builds={v: dict(cases=p["cases"], cases_judged_nontrivial=p["nontrivial"],
                                            library_edges_covered=bin(p["edgebits"]).count("1"), library_edges_total=p["edges_total"],
                                            distinct_edge_profiles=len(p["profiles"]), shards_cut_by_budget=p["truncated"])
                                    for v, p in per_variant.items()}),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2),
              violations=len(new))
    with open(ev_path, "w") as fh:
        json.dump(ev, fh, indent=1)
    if new:
        byk = {}
        for f in new:
            byk.setdefault(f["key"], f)
        for f in list(byk.values())[:3]:
            p = write_replay(pid, tier, seed, f)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  [%s] case %s: %s: %s" % (f["variant"], f["case"], f["key"], f["msg"][:600].replace("\n", " / ")))
        return 1
    # the monitors must actually have observed what the check is about
    for k, need in spec.get("require", {}).items():
        if events.get(k, 0) < need:
            raise CheckError("monitor observed only %d '%s' events (need %d): the check did not exercise its property" %
                             (events.get(k, 0), k, need))
    if len(sigs) < spec.get("min_distinct", 1):
        raise CheckError("only %d distinct non-trivial cases observed" % len(sigs))
    print("OK property=%s tier=%s cases=%d distinct=%d checks=%d wall=%.1fs (build %.1fs)" %
          (pid, tier, total, len(sigs), events.get("checks", 0), time.time() - t0, t_build))
    return 0


def replay(path):
    r = json.loads(rd(path))
    spec = PROPS[r["property"]]
    b = build([(r["variant"], spec["group"])])[(r["variant"], spec["group"])]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        wrapper = ["valgrind", "-q", "--error-exitcode=98"] if r["variant"] == "vg" else None
        res = run_shard(b, r["property"], r["seed"], r["variant"], r["tier"], r["case"], r["case"] + 1, 1, work, "replay", 600, wrapper)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for f in res["failures"]:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("  %s: %s" % (f["key"], f["msg"]))
    return 1 if res["failures"] else 0


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
        return check(a[1], tier)
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "setup":
        ts = sorted({(v, s["group"]) for s in PROPS.values() for v in s["quick"]})
        build(ts)
        print("built %d monitor binaries" % len(ts))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
