#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree, runs them (sharded,
under sanitizers), collects what the monitors saw, and gives the verdict.

    run.py P01 [--tier quick|thorough] [--seed N] [--scale X] [--only JOB] [-v]
    run.py --replay FILE

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build or harness error)
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
WORKERS = min(8, os.cpu_count() or 8)

sys.path.insert(0, HERE)
from jobs import CONFIGS, PROPS  # noqa: E402

ERRORS = []  # reasons for "no verdict"
lock = threading.Lock()
verbose = False


def say(*a):
    print(*a, flush=True)


def dbg(*a):
    if verbose:
        print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "include"), os.path.join(HERE, "lib")):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


REPLACED = []  # "job: compiler" of the jobs that the compiler they are for refuses


def substitutes(cfg):
    """what a program may be built with if the compiler or the standard asked for refuses it, while the one the tests are built with may not"""
    if "-DVF_FUZZ" in cfg["flags"]:
        return
    flags = ["-fsanitize-coverage=trace-pc" if f == "-fsanitize-coverage=trace-pc-guard" else f for f in cfg["flags"]]
    if cfg["cxx"] != "g++":
        yield dict(cfg, cxx="g++", flags=flags)
    if "-std=c++17" not in flags:
        yield dict(cfg, cxx="g++", flags=["-std=c++17" if f.startswith("-std=") else f for f in flags])


def compile_job(job, th):
    """-> (path of the binary or None, compiler output, seconds)"""
    cfg = CONFIGS[job["cfg"]]
    exe, out, secs = compile_with(job, cfg, th)
    if exe is None and not job.get("exactly") and re.search(r"\berror:", out):
        for other in substitutes(cfg):
            exe2, _, secs2 = compile_with(job, other, th)
            secs += secs2
            if exe2:
                std = [f for f in other["flags"] if f.startswith("-std=")]
                REPLACED.append("%s: %s %s" % (job["name"], other["cxx"], " ".join(std)))
                return exe2, out, secs
    return exe, out, secs


def compile_with(job, cfg, th):
    srcs = job["src"] if isinstance(job["src"], list) else [job["src"]]
    flags = list(cfg["flags"]) + ["-D" + d for d in job.get("defs", [])] + list(job.get("flags", []))
    h = hashlib.sha256()
    h.update(th.encode())
    h.update(json.dumps([cfg["cxx"], flags, job.get("link", [])]).encode())
    gen = job.get("gen")
    texts = []
    for s in srcs:
        with open(os.path.join(HERE, "harness", s), "rb") as fh:
            texts.append(fh.read())
            h.update(texts[-1])
    gdir = None
    if gen:
        gtext = gen()
        h.update(gtext.encode())
    d = os.path.join(BUILD, h.hexdigest()[:24])
    out = os.path.join(d, "prog")
    if os.path.exists(out) and not os.environ.get("VERIF_NOCACHE"):
        return out, "", 0.0
    os.makedirs(d, exist_ok=True)
    if gen:
        gdir = d
        with open(os.path.join(d, "generated.inc"), "w") as fh:
            fh.write(gtext)
    cmd = [cfg["cxx"]] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "lib")]
    if gdir:
        cmd += ["-I" + gdir]
    cmd += [os.path.join(HERE, "harness", s) for s in srcs] + ["-o", out + ".tmp"] + list(cfg.get("link", [])) + list(job.get("link", []))
    t0 = time.time()
    last = ""
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            last = "the compiler ran out of time"
            continue
        last = p.stdout
        if p.returncode == 0:
            os.replace(out + ".tmp", out)
            return out, last, time.time() - t0
        if re.search(r"\berror:", last) and not re.search(r"Killed|fatal error: Killed|internal compiler error|No space left|cannot allocate", last):
            break  # a real diagnostic: no use in trying again
    return None, last, time.time() - t0


SMOKE = r'''
#include <json.hpp>
int main() { auto v = json::parse("[1,{\"a\":\"b\"}]"); return v && v->at(0).as_integer() == 1 && v->to_string().size() > 3 ? 0 : 1; }
'''


def smoke_compiles(cfg):
    d = os.path.join(BUILD, "smoke")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "smoke.cpp")
    with open(src, "w") as fh:
        fh.write(SMOKE)
    c = CONFIGS[cfg]
    p = subprocess.run([c["cxx"]] + list(c["flags"]) + ["-I" + os.path.join(REPO, "include"), src, "-o", os.path.join(d, "smoke")] + list(c.get("link", [])),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0


# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=23:detect_leaks={leaks}:detect_stack_use_after_return=1:check_initialization_order=1:"
                    "strict_string_checks=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_container_overflow=1:"
                    "max_malloc_fill_size=256:handle_abort=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=24",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=25:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=26",
    "LC_ALL": "C",
}


def read_state(path):
    try:
        with open(path, "rb") as fh:
            b = fh.read()
        seq, idx, ln, full = struct.unpack_from("<QQII", b, 0)
        sect = b[24:88].split(b"\0")[0].decode("latin1")
        note = b[88:600].split(b"\0")[0].decode("latin1")
        data = b[600:600 + ln]
        fz = struct.unpack_from("<I", b, 600 + 65536)[0] if len(b) > 600 + 65540 else 0
        return dict(seq=seq, section=sect, case=idx, note=note, input=data, input_len=full, fuzz=b[600 + 65540:600 + 65540 + fz].hex())
    except Exception:
        return dict(section="?", case=0, note="", input=b"", input_len=0, fuzz="")


def crash_kind(rc, err):
    m = re.search(r"ERROR: (Address|Leak|Memory|Thread)Sanitizer:? ([A-Za-z0-9_-]+)", err)
    if "hard rss limit exhausted" in err or "hard_rss_limit" in err:
        return "memory"
    if m and m.group(1) == "Leak":
        return "leak"
    if "LeakSanitizer: detected memory leaks" in err:
        return "leak"
    m2 = re.search(r"WARNING: ThreadSanitizer: ([a-zA-Z ()-]+?) \(", err)
    if m2:
        return m2.group(1).replace(" ", "-")
    if "runtime error:" in err:
        k = re.search(r"runtime error: ([a-z ]+)", err)
        return "ub-" + re.sub(r"[^a-z]+", "-", k.group(1).strip())[:40] if k else "ub"
    if m:
        return m.group(2)
    if "Assertion '" in err or "Assertion `" in err:
        return "assertion"
    if "terminate called" in err or "terminating" in err:
        return "terminate"
    if "definitely lost" in err or "Invalid read" in err or "Invalid write" in err or "uninitialised" in err:
        return "valgrind"
    if rc < 0:
        try:
            return "signal-" + signal.Signals(-rc).name
        except ValueError:
            return "signal-%d" % -rc
    return "exit-%d" % rc


def shard_cmd(job, exe, shard, opts, rdir, only=None):
    tag = "%s.%d%s" % (job["name"], shard, ".re" if only else "")
    paths = {k: os.path.join(rdir, tag + "." + k) for k in ("log", "state", "hash", "err")}
    cmd = list(job.get("wrap", [])) + [exe, "--seed", str(opts.seed), "--tier", opts.tier, "--out", paths["log"], "--state", paths["state"]]
    if only and len(only) > 2 and only[2]:
        cmd += ["--section", job["section"], "--fuzz-case", only[2]]
    elif only:
        cmd += ["--section", only[0], "--case", str(only[1])]
    else:
        if job.get("fuzz"):
            cmd += ["--fuzz", job["fuzz"][opts.tier]]
        cmd += ["--shard", str(shard), "--nshards", str(job["shards"])]
        if not job["name"].startswith("flood"):  # too many of them
            cmd += ["--hashes", paths["hash"]]
        if job.get("section"):
            cmd += ["--section", job["section"]]
    sc = opts.scale * job.get("scale", 1.0)
    if sc != 1.0 and not only:
        cmd += ["--scale", str(sc)]
    return cmd, paths


def limits(job):
    if not any("sanitize" in f for f in CONFIGS[job["cfg"]]["flags"]) and not job.get("wrap"):
        n = job.get("memory_mb", 3500) << 20  # as hard_rss_limit_mb for the others
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


RUNNING = set()  # processes of shards
HUNG = threading.Event()  # a hang was confirmed: no need to wait for the others


class Idle:
    """tells a process that neither makes progress nor uses any processor time (a deadlock)"""
    LIMIT = 120

    def __init__(self, pid, state):
        self.pid, self.state = pid, state
        self.since, self.seq, self.cpu = time.time(), None, 0.0

    def used(self):
        parents, cpu = {}, {}
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/stat" % d) as fh:
                        f = fh.read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                parents[int(d)] = int(f[1])
                cpu[int(d)] = sum(int(x) for x in f[11:15])
        total = 0
        for q in cpu:
            a = q
            while a and a != self.pid:
                a = parents.get(a, 0)
            if a == self.pid:
                total += cpu[q]
        return total / os.sysconf("SC_CLK_TCK")

    def blocked(self):
        now = time.time()
        seq = read_state(self.state).get("seq")
        if seq is None or seq != self.seq:
            self.seq, self.since, self.cpu = seq, now, None
            return False
        if now - self.since < 20:
            return False
        if self.cpu is None:
            self.cpu = self.used()
            return False
        if now - self.since < self.LIMIT:
            return False
        used = self.used()
        if used - self.cpu < 1.0:
            return True
        self.since, self.cpu = now, None
        return False


def run_once(job, exe, shard, opts, rdir, only=None, timeout=None):
    cmd, paths = shard_cmd(job, exe, shard, opts, rdir, only)
    env = dict(os.environ)
    for k, v in SAN_ENV.items():
        env[k] = v.replace("{leaks}", "1" if job.get("leaks", True) else "0")
    env["VF_SCRATCH"] = rdir
    env["VF_DICT"] = os.path.join(HERE, "lib", "json.dict")
    env.update(job.get("env", {}))
    for p in paths.values():
        if os.path.exists(p):
            os.unlink(p)
    with open(paths["err"], "wb") as eh:
        p = subprocess.Popen(cmd, stdout=eh, stderr=eh, stdin=subprocess.DEVNULL, env=env, cwd=rdir, preexec_fn=lambda: limits(job))
        with lock:
            RUNNING.add(p)
        timed, idle = False, Idle(p.pid, paths["state"])
        end = time.time() + (timeout or job.get("timeout", 700 if opts.tier == "quick" else 3 * 3600))
        while True:
            try:
                rc = p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                pass
            blocked = idle.blocked()
            if blocked or time.time() > end:
                p.kill()
                rc = p.wait()
                timed = not blocked
                if blocked:
                    rc = 97
                break
        with lock:
            RUNNING.discard(p)
    with open(paths["err"], "rb") as eh:
        err = eh.read(400000).decode("latin1")
        size = os.fstat(eh.fileno()).st_size
        if size > 400000:
            eh.seek(max(400000, size - 400000))
            err += "\n...\n" + eh.read().decode("latin1")
    recs = []
    if os.path.exists(paths["log"]):
        with open(paths["log"], encoding="utf8", errors="replace") as fh:
            for line in fh:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    done = next((r for r in recs if r.get("t") == "done"), None)
    if done and job.get("fuzz"):
        m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", err)
        if m:
            done["counters"].update({"fuzzer: edges covered (max)": int(m[-1][0]), "fuzzer: features": int(m[-1][1]), "fuzzer: corpus": int(m[-1][2])})
    viols = [r for r in recs if r.get("t") == "viol"]
    return dict(rc=rc, timed=timed, err=err, recs=recs, done=done, viols=viols, cmd=cmd, paths=paths)


def run_shard(job, exe, shard, opts, rdir):
    """-> (list of violations, done record or None, hash file)"""
    t0 = time.time()
    if HUNG.is_set():
        return [], None, None
    r = run_once(job, exe, shard, opts, rdir)
    if HUNG.is_set():
        return [dict(key=v["key"], what=v["what"], section=v["section"], case=v["case"], input=v["input"], fuzz=v.get("fuzz", ""), job=job["name"], shard=shard) for v in r["viols"]], None, None
    if "LeakSanitizer has encountered a fatal error" in r["err"] and r["done"]:
        r["rc"] = 1 if r["viols"] else 0  # leaks cannot be looked for in this environment
    viols = []
    for v in r["viols"]:
        viols.append(dict(key=v["key"], what=v["what"], section=v["section"], case=v["case"], input=v["input"], fuzz=v.get("fuzz", ""), job=job["name"], shard=shard))
    ok_rc = (0, 1)
    if r["done"] and r["rc"] in ok_rc:
        dbg("  ran %s.%d in %.1f s" % (job["name"], shard, time.time() - t0))
        return viols, r["done"], r["paths"]["hash"]
    # it ended in some other way
    st = read_state(r["paths"]["state"])
    if (r["timed"] or (r["rc"] in (-9, -15) and "hard rss" not in r["err"])) and not viols:
        # killed from outside or out of (wall) time: once more, then no verdict
        dbg("  %s.%d was killed (rc %s), running it again" % (job["name"], shard, r["rc"]))
        r2 = run_once(job, exe, shard, opts, rdir)
        if r2["done"] and r2["rc"] in ok_rc:
            viols += [dict(key=v["key"], what=v["what"], section=v["section"], case=v["case"], input=v["input"], fuzz=v.get("fuzz", ""), job=job["name"], shard=shard) for v in r2["viols"]]
            return viols, r2["done"], r2["paths"]["hash"]
        if r2["timed"] or r2["rc"] in (-9, -15):
            with lock:
                ERRORS.append("%s.%d was killed or ran out of time twice (in %s case %s)" % (job["name"], shard, st["section"], st["case"]))
            return viols, None, None
        r, st = r2, read_state(r2["paths"]["state"])
    if r["rc"] == 98:
        with lock:
            ERRORS.append("%s.%d: harness error: %s" % (job["name"], shard, r["err"][-500:]))
        return viols, None, None
    if r["rc"] == 97:  # no progress for long: confirm it on the case alone
        r2 = run_once(job, exe, shard, opts, rdir, only=(st["section"], st["case"], st["fuzz"]))
        if HUNG.is_set():
            return viols, None, None
        if r2["rc"] != 97:
            with lock:
                ERRORS.append("%s.%d stopped making progress in %s case %s, but not when run alone" % (job["name"], shard, st["section"], st["case"]))
            return viols, None, None
        key = "hang:" + st["section"]
        what = "no progress within the limit of time, twice"
        HUNG.set()
        with lock:
            for q in list(RUNNING):
                q.kill()
    else:
        kind = crash_kind(r["rc"], r["err"])
        if r["done"] and kind == "leak":
            key = "leak:" + job["name"]
        else:
            key = "crash:%s:%s" % (st["section"], kind)
        what = re.sub(r"0x[0-9a-f]{6,}", "0x..", r["err"][:6000])
    viols.append(dict(key=key, what=what, section=st["section"], case=st["case"], note=st["note"],
                      input=st["input"][:4096].decode("latin1"), input_len=st["input_len"], fuzz=st["fuzz"], job=job["name"], shard=shard))
    return viols, r["done"], r["paths"]["hash"]


# ------------------------------------------------------------------ verdict
def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf8"):
            m = re.match(r"^KNOWN property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    global verbose
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("-v", action="store_true")
    opts = ap.parse_args()
    verbose = opts.v or bool(os.environ.get("VERIF_VERBOSE"))
    if opts.replay:
        return replay(opts)
    prop = opts.property
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    try:
        return check(prop, spec, opts, rdir, t0)
    finally:
        shutil.rmtree(rdir, ignore_errors=True)


def check(prop, spec, opts, rdir, t0):
    th = tree_hash()
    jobs = []
    for j in spec["jobs"]:
        if opts.only and opts.only not in j["name"]:
            continue
        if j.get("tier") and j["tier"] != opts.tier:
            continue
        if j.get("needs") and not j["needs"]():
            dbg("  skipped %s: not available here" % j["name"])
            continue
        j = dict(j)
        j["shards"] = j.get("shards_" + opts.tier, j.get("shards", 4))
        jobs.append(j)
    viols, dones, hashes, compile_fail = [], [], [], []
    pool = cf.ThreadPoolExecutor(WORKERS)
    pending = set()
    info = {}

    def start_shards(job, exe):
        for s in range(job["shards"]):
            f = pool.submit(run_shard, job, exe, s, opts, rdir)
            info[f] = ("run", job)
            pending.add(f)

    # the same binary may serve several jobs: compile it once
    byb = {}
    for j in jobs:
        k = json.dumps([j["cfg"], j["src"], j.get("defs", []), j.get("flags", []), j.get("link", []), hashlib.sha256(j["gen"]().encode()).hexdigest() if j.get("gen") else ""])
        byb.setdefault(k, []).append(j)
    for k, js in byb.items():
        f = pool.submit(compile_job, js[0], th)
        info[f] = ("compile", js)
        pending.add(f)
    while pending:
        fin, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
        for f in fin:
            pending.discard(f)
            kind, job = info.pop(f)
            if kind == "compile":
                exe, out, secs = f.result()
                dbg("  compiled %s in %.1f s" % (job[0]["name"], secs))
                if exe is None:
                    compile_fail.append((job[0], out))
                    continue
                for j in job:
                    start_shards(j, exe)
            else:
                v, d, h = f.result()
                viols += v
                if d:
                    dones.append((job, d))
                if h:
                    hashes.append(h)
    pool.shutdown()

    skipped = []
    for job, out in compile_fail:
        if job.get("optional"):
            skipped.append(job["name"])
            dbg("  optional job does not compile: " + job["name"] + "\n" + out[:3000])
            continue
        first = next((l for l in out.splitlines() if "error" in l), out[:300])
        if re.search(r"\berror:", out) and not re.search(r"Killed|internal compiler error|No space left|cannot allocate", out) and smoke_compiles(job["cfg"]):
            # the library builds, but a program using its public interface no longer does
            viols.append(dict(key="compile:" + job["name"], what=first + "\n" + out[:4000], section="(compilation)", case=0, input="", job=job["name"], shard=0))
        else:
            ERRORS.append("cannot build %s: %s" % (job["name"], first[:500]))

    # offline comparison of the event logs of several builds
    extra = {}
    if spec.get("offline") and not HUNG.is_set():
        ov, oe, extra = spec["offline"](rdir, [j["name"] for j in jobs], dones)
        viols += ov
        ERRORS.extend(oe)

    counters, samples, evaluations = {}, [], 0
    per_job = {}
    for job, d in dones:
        evaluations += d["cases"]
        for k, n in d["counters"].items():
            counters[k] = max(counters.get(k, 0), n) if k.endswith("(max)") else counters.get(k, 0) + n
        for s in d["samples"]:
            if len(samples) < 12 and s not in samples:
                samples.append(s)
        pj = per_job.setdefault(job["name"], dict(cases=0, shards=0))
        pj["cases"] += d["cases"]
        pj["shards"] += 1
    distinct = set()
    for h in hashes:
        if os.path.exists(h):
            with open(h, "rb") as fh:
                b = fh.read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    ev = counters.pop("evaluations", None)
    if ev:
        evaluations = ev
    for c in spec.get("require", []):
        if not counters.get(c) and not viols and not opts.only:
            ERRORS.append("the monitors observed no %s" % c)

    known = load_known(prop)
    new, seen = [], {}
    for v in viols:
        if v["key"] in known:
            seen.setdefault(v["key"], v)
        else:
            new.append(v)
    new.sort(key=lambda v: (v["key"], v["job"], v["section"], v["case"]))
    wall = time.time() - t0
    evid = dict(property=prop, tier=opts.tier, seed=opts.seed, level=spec.get("level", "exploration"),
                coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=spec["rule"],
                              samples=samples or ["(none)"], counters=dict(sorted(counters.items())), jobs=per_job,
                              skipped_optional_jobs=skipped, built_otherwise=REPLACED, known_findings_seen=sorted(seen), **extra),
                assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    path = os.path.join(EVID, prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evid, fh, indent=1)
    os.replace(path + ".tmp", path)

    for k, d in known.items():
        if k in seen:
            say("KNOWN-FINDING: property=%s %s" % (prop, d))
    rc = 0
    keys = set()
    rp = os.path.join(EVID, "replay")
    if new:
        os.makedirs(rp, exist_ok=True)
    for v in new:
        if v["key"] in keys or len(keys) >= 8:
            continue
        keys.add(v["key"])
        f = os.path.join(rp, "%s-%d.json" % (prop, len(keys)))
        with open(f, "w") as fh:
            json.dump(dict(v, property=prop, seed=opts.seed, tier=opts.tier, scale=opts.scale), fh, indent=1)
        say("  %s in %s case %s: %s" % (v["key"], v["section"], v["case"], v["what"][:600].replace("\n", " | ")))
        say("VIOLATION property=%s replay=%s" % (prop, f))
        rc = 1
    for e in ERRORS:
        say("ERROR: " + e)
    if rc == 0 and ERRORS:
        rc = 2
    say("%s %s: %s after %d evaluations (%d distinct) in %.1f s" % (prop, opts.tier, {0: "held", 1: "VIOLATED", 2: "no verdict"}[rc], evaluations, len(distinct), wall))
    return rc


def replay(opts):
    with open(opts.replay) as fh:
        v = json.load(fh)
    spec = PROPS[v["property"]]
    job = next(j for j in spec["jobs"] if j["name"] == v["job"])
    job = dict(job, shards=1)
    exe, out, _ = compile_job(job, tree_hash())
    if not exe:
        say(out)
        return 2
    opts.seed, opts.tier, opts.scale = v["seed"], v["tier"], v["scale"]
    rdir = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(rdir)
    try:
        r = run_once(job, exe, 0, opts, rdir, only=(v["section"], v["case"], v.get("fuzz")))
        say(" ".join(r["cmd"]))
        for x in r["viols"]:
            say(x["key"], x["what"], "input:", x["input"])
        say(r["err"][:8000])
        say("exit", r["rc"])
        return 1 if r["viols"] or not r["done"] or r["rc"] not in (0,) else 0
    finally:
        shutil.rmtree(rdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
