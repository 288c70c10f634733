"""Machinery shared by all checks: build harnesses from /repo's working tree, execute
scenarios, and have TLC decide whether the recorded traces are behaviours of the
specification.  Exit status: 0 held, 1 violation, 2 the machinery itself failed."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))

LIB_INC = ["lib/include"]
PROXY_INC = ["lib/include", "proxy/common/include", "proxy/http_coap/include"]


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "trace_events": 0, "samples": [], "models": [], "families": {}}
        self.lock = threading.Lock()
        self.violations = []
        self.known = []
        self.notes = []
        self.cmd_budget = None

    def rng(self, name):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, name))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- building
_built = {}
VN_WRAPS = ("socket bind connect setsockopt getsockopt fcntl getaddrinfo freeaddrinfo select poll recvfrom recv sendto "
            "send timerfd_create timerfd_settime timerfd_gettime read close time clock_gettime gettimeofday srand rand "
            "random srandom").split()
HEAP_WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
MEM_WRAPS = ["coap_mem_%s_%s" % (p, f) for p in ("small", "medium", "large") for f in ("alloc", "free")]


def build(ctx, name, harness, sources, inc=LIB_INC, defs=(), wraps=(), libs=(), san="address"):
    """Compile harness files and /repo sources; returns the path of the binary."""
    key = (ctx.dir, name)
    if key in _built:
        return _built[key]
    out = os.path.join(ctx.dir, "bin-" + name)
    odir = os.path.join(ctx.dir, "obj-" + name)
    os.makedirs(odir, exist_ok=True)
    base = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-w"]
    if san:
        base += ["-fsanitize=" + san, "-fno-sanitize-recover=all"]
    base += ["-I" + os.path.join(REPO, i) for i in inc] + ["-I" + HARN] + ["-D" + d for d in defs]
    jobs = []
    for s in list(harness) + ["common.c"]:
        jobs.append((os.path.join(HARN, s), os.path.join(odir, "h_" + os.path.basename(s) + ".o")))
    for s in sources:
        jobs.append((os.path.join(REPO, s), os.path.join(odir, os.path.basename(s) + ".o")))

    def cc(j):
        return subprocess.run(base + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, r in zip(jobs, ex.map(cc, jobs)):
            if r.returncode != 0:
                raise ToolError("compiling %s failed:\n%s" % (j[0], r.stderr[-3000:]))
    link = base + [j[1] for j in jobs] + ["-o", out, "-lpthread"] + list(libs)
    link += ["-Wl,--wrap=" + w for w in wraps]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode != 0 and "undefined reference" in r.stderr:
        # code may have moved to another file of the same folder: offer those as a library
        rest = []
        for d in sorted({os.path.dirname(s) for s in sources}):
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                if f.endswith(".c") and os.path.join(d, f) not in sources:
                    rest.append((os.path.join(REPO, d, f), os.path.join(odir, "r_" + f + ".o")))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = [j[1] for j, c in zip(rest, ex.map(cc, rest)) if c.returncode == 0]
        if objs:
            lib = os.path.join(odir, "rest.a")
            subprocess.run(["ar", "rcs", lib] + objs, capture_output=True)
            r = subprocess.run(link + [lib], capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
    _built[key] = out
    return out


# ---------------------------------------------------------------- running the code
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:log_path=/dev/null:handle_segv=1",
          "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78:print_stacktrace=0"}


def execute(binary, scns, trace, tmo=20, env=None):
    """scns: list of (id, [command lines]).  Writes the trace file; returns the parsed lines."""
    text = []
    for i, cmds in scns:
        text.append("SCN %d\n" % i)
        text.extend(c + "\n" for c in cmds)
        text.append("END\n")
    e = dict(os.environ)
    e.update(SANENV)
    if env:
        e.update(env)
    if os.path.exists(trace):
        os.unlink(trace)
    r = subprocess.run([binary, trace, str(tmo)], input="".join(text), text=True, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=880)
    if r.returncode != 0:
        raise ToolError("harness %s exited with %d: %s" % (binary, r.returncode, r.stderr[-2000:]))
    lines = []
    with open(trace, encoding="latin-1") as f:
        for ln in f:
            ln = ln.strip()
            if not ln:
                continue
            try:
                lines.append(json.loads(ln))
            except ValueError:
                # a partly written line of a scenario that crashed: the crash line follows
                continue
    return lines


# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=1, mem="2g", extra=(), tmo=850):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.dir)
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=e, timeout=tmo)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    return r.returncode, out, gen, dist


def write_ndjson(path, lines):
    with open(path, "w") as f:
        for l in lines:
            f.write(json.dumps(l, separators=(",", ":")) + "\n")


def validate(ctx, spec, lines, cfg=None, tag="t", mem="2g", env=None):
    """TLC trace validation.  None if accepted, else the index of the first unmatched line."""
    if not lines:
        raise ToolError("empty trace")
    fd, path = tempfile.mkstemp(prefix="trace-%s-" % tag, suffix=".ndjson", dir=ctx.dir)
    os.close(fd)
    write_ndjson(path, lines)
    e = {"TRACE": path}
    if env:
        e.update(env)
    rc, out, gen, dist = tlc(ctx, spec + ".tla", cfg or spec + ".cfg", env=e, mem=mem)
    os.unlink(path)
    with ctx.lock:
        ctx.cov["states"] += dist
        ctx.cov["transitions"] += gen
    m = re.search(r'"TRACE-REJECTED-AT", (\d+)', out)
    if m:
        return int(m.group(1)) - 1
    if rc == 0 and "No error has been found" in out:
        return None
    keep = os.path.join(EVID, "toolerror-%s.log" % ctx.prop)
    os.makedirs(EVID, exist_ok=True)
    with open(keep, "w") as f:
        f.write(out)
    raise ToolError("TLC failed on %s (rc %d): %s" % (spec, rc, out[-1500:]))


def model_check(ctx, module, cfg, label=None, workers=NCPU, mem="8g", extra=(), min_states=2, env=None):
    """Exhaustive check of a design model; any failure is a defect of the model (tool error)."""
    rc, out, gen, dist = tlc(ctx, module + ".tla", cfg, workers=workers, mem=mem, extra=extra, env=env)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("model %s/%s does not satisfy its properties:\n%s" % (module, cfg, out[-3000:]))
    if dist < min_states:
        raise ToolError("model %s/%s is vacuous: %d states" % (module, cfg, dist))
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["models"].append({"module": module, "config": cfg, "states": dist, "transitions": gen,
                              "what": label or ""})
    return out


def generate(ctx, module, cfg, env=None, mem="4g", extra=()):
    """Run TLC on a generator module which prints <<"GEN", json-string>> for each behaviour."""
    rc, out, gen, dist = tlc(ctx, module + ".tla", cfg, workers=1, mem=mem, env=env, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("generator %s/%s failed:\n%s" % (module, cfg, out[-3000:]))
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    res = []
    for m in re.finditer(r'^<<"GEN", "(.*)">>$', out, re.M):
        res.append(json.loads(m.group(1).encode().decode("unicode_escape")))
    if not res:
        raise ToolError("generator %s/%s produced nothing" % (module, cfg))
    ctx.cov["models"].append({"module": module, "config": cfg, "states": dist, "transitions": gen,
                              "what": "behaviours generated for replay: %d" % len(res)})
    return res


# ---------------------------------------------------------------- a family of scenarios
def group(lines):
    res, cur = {}, None
    for x in lines:
        res.setdefault(x["scn"], []).append(x)
    return res


def conform(ctx, family, binary, spec, scns, post=None, cfg=None, tmo=20, shards=None, mem="2g",
            env=None, max_report=3, describe=None):
    """Run scenarios in the real code and validate each recorded trace against spec.
    scns: list of command lists.  post(lines)->lines may regroup events of one scenario."""
    ids = list(enumerate(scns))
    if not ids:
        raise ToolError("no scenarios in family " + family)
    nsh = shards or min(NCPU, max(1, len(ids) // 4))
    parts = [ids[k::nsh] for k in range(nsh)]

    def one(k):
        tr = os.path.join(ctx.dir, "raw-%s-%d.ndjson" % (family, k))
        lines = execute(binary, parts[k], tr, tmo, env)
        os.unlink(tr)
        return lines

    def prep(lines, part):
        g = group(lines)
        flat = []
        for i, _ in part:
            if i not in g:
                if any(x["k"] == "crash" for x in lines):
                    continue            # the harness gives up after several crashes
                raise ToolError("scenario %d of %s left no trace" % (i, family))
            flat.extend(post(g[i]) if post else g[i])
        return flat

    def work(k):
        flat = prep(one(k), parts[k])
        rej = []
        done, evs = len(parts[k]), len(flat)
        todo = flat
        for _ in range(max_report):
            at = validate(ctx, spec, todo, cfg=cfg, tag="%s-%d" % (family, k), mem=mem)
            if at is None:
                break
            sid = todo[min(at, len(todo) - 1)]["scn"]
            rej.append((sid, todo[min(at, len(todo) - 1)]))
            # continue with the scenarios behind the rejected one
            j = at
            while j < len(todo) and todo[j]["scn"] == sid:
                j += 1
            todo = todo[j:]
            if not todo:
                break
        return rej, done, evs

    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(work, range(nsh)))
    nscn = sum(r[1] for r in results)
    evs = sum(r[2] for r in results)
    ctx.cov["traces_validated_against_impl"] += nscn
    ctx.cov["trace_events"] += evs
    for i in sorted({0, len(ids) // 2, len(ids) - 1}):
        if len(ctx.cov["samples"]) < 12:
            ctx.cov["samples"].append({"family": family, "commands": [c[:300] for c in scns[i][:12]]})
    ctx.cov["families"][family] = {"scenarios": nscn, "events": evs, "spec": spec}
    rejected = [x for r in results for x in r[0]]
    for sid, ev in rejected[:max_report]:
        # confirm: run that scenario again, alone, and ask TLC again
        tr = os.path.join(ctx.dir, "confirm.ndjson")
        lines = execute(binary, [(sid, scns[sid])], tr, tmo, env)
        flat = post(lines) if post else lines
        at = validate(ctx, spec, flat, cfg=cfg, tag="confirm", mem=mem)
        if at is None:
            ctx.notes.append("scenario %d of %s was rejected once and accepted when repeated" % (sid, family))
            continue
        bad = flat[min(at, len(flat) - 1)]
        rep = save_replay(ctx, family, spec, sid, scns[sid], flat, at)
        ctx.violations.append({"family": family, "scenario": sid, "line": at, "event": bad, "replay": rep})
    return not ctx.violations


def save_replay(ctx, family, spec, sid, cmds, lines, at):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (ctx.prop, family, sid))
    with open(p, "w") as f:
        json.dump({"property": ctx.prop, "family": family, "spec": spec, "scenario": sid,
                   "commands": cmds, "rejected_line": at, "trace": lines}, f, indent=1)
    return p


def finish(ctx, level, assumptions):
    """Write the evidence file; returns the exit status."""
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": dict(ctx.cov), "wall_s": round(time.time() - ctx.t0, 2),
          "assumptions": assumptions,
          "violations": len(ctx.violations)}
    if ctx.violations:
        ev["coverage"]["violation_details"] = [
            {"replay": v["replay"], "family": v["family"], "event": json.dumps(v["event"])[:2000]}
            for v in ctx.violations]
    if ctx.notes:
        ev["coverage"]["notes"] = ctx.notes
    with open(os.path.join(EVID, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in ctx.violations:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, v["replay"]))
        print("  family %s scenario %d: the specification does not allow event %s"
              % (v["family"], v["scenario"], json.dumps(v["event"])[:600]))
    return 1 if ctx.violations else 0


def setup():
    """Nothing is built ahead of time; make sure the tools are there and the modules parse."""
    os.makedirs(EVID, exist_ok=True)
    bad = 0
    mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))

    def parse(m):
        return m, subprocess.run(["java", "-DTLA-Library=" + SPEC, "-cp", JAR, "tla2sany.SANY", m], cwd=SPEC,
                                 capture_output=True, text=True)
    with cf.ThreadPoolExecutor(4) as ex:
        for m, r in ex.map(parse, mods):
            ok = r.returncode == 0 and "*** Errors" not in r.stdout and "Fatal" not in r.stdout
            print("%-24s %s" % (m, "ok" if ok else "FAILED"))
            bad += not ok
    return 1 if bad else 0
