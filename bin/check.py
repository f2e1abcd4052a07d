#!/usr/bin/env python3
"""Decides one property of zycore-c by bounded symbolic execution of the real sources (CBMC).

  check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]
  check.py --setup               check that the toolchain works on the current tree
  check.py --replay FILE         re-run a recorded counterexample against the real code
  check.py --list

Every run compiles /repo's current sources with goto-cc, links them with the harnesses listed in
harness/registry.py, lets CBMC decide every assertion (with unwinding assertions), replays every
counterexample natively under ASan/UBSan, and replays witness traces to validate the encoding.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, HARN)
sys.dont_write_bytecode = True
import registry  # noqa: E402

JOBS = int(os.environ.get("VH_JOBS", "8"))
BUDGET = {"quick": 840, "thorough": 6000}
CPU_LIMIT = {"quick": 600, "thorough": 3000}
MEM = 7 << 30
T0 = time.time()
VERBOSE = False

GCC_WARN = ["-w", "-U_FORTIFY_SOURCE"]
DEFS = ["-DZYCORE_STATIC_BUILD", "-D_CRT_SECURE_NO_WARNINGS", "-D_GNU_SOURCE"]
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN]
CBMC_FLAGS = ["--json-ui", "--unwinding-assertions", "--drop-unused-functions", "--slice-formula",
              "--no-malloc-may-fail", "--trace", "--verbosity", "8"]


class CheckError(Exception):
    pass


class Undecided(CheckError):
    """No verdict within the time and memory of a run: says nothing about the code."""


def say(*a):
    print(*a, flush=True)


def dbg(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


procs = set()
STOP = threading.Event()
plock = threading.Lock()


def run(cmd, timeout, env=None, cwd=None, mem=True, inp=None):
    """-> (rc, stdout, stderr, timed_out, cpu seconds unavailable)"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    with plock:
        procs.add(p)
    to = False
    try:
        out, err = p.communicate(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    finally:
        with plock:
            procs.discard(p)
    if STOP.is_set():
        raise CheckError("stopped: another harness has already found a violation")
    return p.returncode, out, err, to


def killall():
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def repo_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    if not s:
        raise CheckError("no sources under %s/src" % REPO)
    return s


class Builder:
    """Compiles the repository once per (mode, profile) and harness files once per configuration."""
    def __init__(self, tmp, prop):
        self.tmp, self.prop = tmp, prop
        self.lock = threading.Lock()
        self.cache = {}
        ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
        with open(os.path.join(tmp, "vh_on.h"), "w") as f:
            for i in ids:
                f.write("#define VH_ON_%s %d\n" % (i, 1 if i == prop else 0))
        self.n = 0

    def once(self, key, fn):
        with self.lock:
            fut = self.cache.get(key)
            mine = fut is None
            if mine:
                fut = self.cache[key] = cf.Future()
        if mine:
            try:
                fut.set_result(fn())
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def name(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "f%d%s" % (self.n, suffix))

    def compiler(self, mode):
        if mode == "solver":
            return ["goto-cc", "-std=gnu11", "-DVH_SOLVER"]
        if mode == "msan":
            return ["clang", "-std=gnu11", "-g", "-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"]
        return ["gcc", "-std=gnu11", "-g", "-O1", "-fsanitize=address,undefined",
                "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                "-ftrivial-auto-var-init=" + ("zero" if mode == "asan0" else "pattern")]

    def cc(self, mode, src, defs):
        def go():
            o = self.name(".gb" if mode == "solver" else ".o")
            cmd = self.compiler(mode) + DEFS + GCC_WARN + INC + ["-I" + self.tmp, "-include", "vh_on.h"] \
                + list(defs) + ["-c", src, "-o", o]
            rc, out, err, to = run(cmd, 120, mem=False)
            if rc:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), err.decode("utf8", "replace")[-3000:]))
            return o
        return self.once(("cc", mode, src, tuple(defs)), go)

    def link(self, h, mode):
        def go():
            prof = registry.PROFILES[h.profile]
            objs = []
            base = os.path.join(REPO, "src")
            for s in repo_sources():
                rel = os.path.relpath(s, base)
                if prof.get("sources") is not None and rel not in prof["sources"]:
                    continue
                d = list(prof["defs"]) + (["-DVH_STUBS"] if prof.get("stubs") else [])
                pre = prof.get("includes", {}).get(rel, prof.get("include"))
                if pre:
                    d += ["-include", os.path.join(HARN, pre)]
                objs.append(self.cc(mode, s, d))
            hd = list(prof["hdefs"]) + ["-D%s=%s" % kv for kv in sorted(h.defs.items())]
            for s in h.src:
                objs.append(self.cc(mode, os.path.join(HARN, s), hd))
            if mode == "solver":
                objs.append(self.cc(mode, os.path.join(HARN, "vh.c"), []))
                if prof.get("libc", True):
                    objs.append(self.cc(mode, os.path.join(HARN, "vh_libc.c"), []))
                out = self.name(".goto")
                cmd = ["goto-cc"] + objs + ["-o", out]
            else:
                objs.append(self.cc(mode, os.path.join(HARN, "vh.c"), []))
                m = self.name(".c")
                with open(m, "w") as f:
                    f.write("void %s(void);int main(void){%s();return 0;}\n" % (h.entry, h.entry))
                objs.append(self.cc(mode, m, []))
                out = self.name(".exe")
                cmd = self.compiler(mode) + objs + ["-o", out, "-lpthread"]
            rc, so, err, to = run(cmd, 120, mem=False)
            if rc:
                raise CheckError("link failed: %s\n%s" % (" ".join(cmd), err.decode("utf8", "replace")[-3000:]))
            return out
        return self.once(("link", mode, h.name), go)


def race(cmds, timeout):
    """Runs the solver alternatives side by side; the first one with a verdict wins."""
    if len(cmds) == 1:
        return run(cmds[0], timeout)
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ps = []
    for c in cmds:
        o = tempfile.TemporaryFile()
        e = tempfile.TemporaryFile()
        p = subprocess.Popen(c, stdout=o, stderr=e, preexec_fn=pre, stdin=subprocess.DEVNULL)
        with plock:
            procs.add(p)
        ps.append((p, o, e))
    end = time.time() + timeout
    best = None
    try:
        left = list(ps)
        while left and time.time() < end and best is None and not STOP.is_set():
            for x in list(left):
                if x[0].poll() is not None:
                    left.remove(x)
                    x[1].seek(0); x[2].seek(0)
                    out, err = x[1].read(), x[2].read()
                    last = (x[0].returncode, out, err, False)
                    r = parse_cbmc(out)
                    if r and r["props"] is not None and not any(q.get("status") == "ERROR" for q in r["props"]):
                        best = last
                        break
            time.sleep(0.05)
    finally:
        for p, o, e in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            with plock:
                procs.discard(p)
    if STOP.is_set():
        raise CheckError("stopped: another harness has already found a violation")
    if best:
        return best
    if left:
        return -9, b"", b"", True
    return last


def parse_cbmc(out):
    try:
        doc = json.loads(out)
    except ValueError:
        return None
    res = {"props": None, "status": None, "msgs": []}
    for m in doc:
        if "messageText" in m:
            res["msgs"].append((m.get("messageType"), m["messageText"]))
        if "result" in m:
            res["props"] = m["result"]
        if "cProverStatus" in m:
            res["status"] = m["cProverStatus"]
    return res


def stats(res):
    s = {"steps": 0, "vccs": 0, "remaining": 0, "variables": 0, "clauses": 0, "solver_s": 0.0, "symex_s": 0.0}
    for t, m in res["msgs"]:
        a = re.search(r"size of program expression: (\d+) steps", m)
        if a:
            s["steps"] += int(a.group(1))
        a = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if a:
            s["vccs"] += int(a.group(1)); s["remaining"] += int(a.group(2))
        a = re.search(r"(\d+) variables, (\d+) clauses", m)
        if a:
            s["variables"] = max(s["variables"], int(a.group(1))); s["clauses"] = max(s["clauses"], int(a.group(2)))
        a = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", m)
        if a:
            s["solver_s"] += float(a.group(1))
        a = re.search(r"Runtime Symex: ([\d.e+-]+)s", m)
        if a:
            s["symex_s"] += float(a.group(1))
    return s


def trace_inputs(trace):
    d = {}
    for st in trace or []:
        if st.get("stepType") == "input" and st.get("inputID") == "nd":
            vals = st.get("values", [])
            if len(vals) >= 2:
                def num(v):
                    if "binary" in v:
                        return int(v["binary"], 2)
                    return int(re.sub(r"[uUlL]+$", "", v["data"]))
                try:
                    d[num(vals[0])] = num(vals[1])
                except (KeyError, ValueError):
                    pass
    return d


def loc(p):
    l = p.get("sourceLocation") or {}
    return "%s:%s (%s)" % (os.path.basename(l.get("file", "?")), l.get("line", "?"), l.get("function", "?"))


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k in sorted(inputs):
            f.write("%d %d\n" % (k, inputs[k]))


def native(b, h, inputs, modes=("asan", "asan0", "msan"), fills=(165, 0, 255)):
    """Replay on the real code. -> (violated?, description, all runs clean?)"""
    f = b.name(".in")
    write_inputs(f, inputs)
    clean = True
    for mode in modes:
        try:
            exe = b.link(h, mode)
        except CheckError as e:
            if mode == "msan":
                continue
            raise
        for fill in fills:
            env = {"PATH": "/usr/bin:/bin", "VH_INPUT": f, "VH_FILL": str(fill), "VH_REPLAY": "1",
                   "ASAN_OPTIONS": "abort_on_error=0:exitcode=43:detect_leaks=0:malloc_fill_byte=%d:max_malloc_fill_size=65536:detect_stack_use_after_return=1" % fill,
                   "UBSAN_OPTIONS": "halt_on_error=1:exitcode=44:print_stacktrace=1",
                   "MSAN_OPTIONS": "exitcode=45"}
            rc, out, err, to = run([exe], h.replay_timeout, env=env, cwd=b.tmp, mem=False)
            e = err.decode("utf8", "replace")
            if to:
                rc, out, err, to = run([exe], 6 * h.replay_timeout, env=env, cwd=b.tmp, mem=False)
                e = err.decode("utf8", "replace")
            if "Sanitizer failed to allocate" in e or "ReserveShadowMemoryRange failed" in e or "Sanitizer: out of memory" in e:
                raise CheckError("the replay found no memory: " + e[:200])
            if to:
                return True, "does not terminate (killed after %d s)" % h.replay_timeout, False
            if rc == 42:
                m = re.search(r"PROPERTY VIOLATED: (.*)", e)
                return True, m.group(1) if m else "property violated", False
            if rc in (43, 44, 45) or "runtime error:" in e or "ERROR: AddressSanitizer" in e:
                m = re.search(r"((ERROR: |WARNING: )(Address|Memory)Sanitizer: .*|.*runtime error: .*)", e)
                return True, (m.group(1) if m else e[-300:]).strip(), False
            if rc == -9:
                raise CheckError("replay was killed from outside")
            if rc < 0 or rc in (134, 139):
                return True, "crashed with status %d: %s" % (rc, e.strip()[-300:]), False
            if rc != 0:
                clean = False
                dbg("replay of", h.name, mode, fill, "rc", rc, e[-300:])
    return False, "", clean


class Result:
    def __init__(self, h):
        self.h = h
        self.violation = None     # (message, replay path)
        self.error = None
        self.undecided = False    # the error is only that the time or memory of a run was not enough
        self.known = []
        self.stats = {}
        self.nprops = 0; self.ok = 0; self.witnesses = 0; self.witness_validated = 0
        self.unwind = h.unwind; self.wall = 0.0; self.replays = 0
        self.sample = None


def save_replay(prop, h, p, inputs, what):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, h.name))
    with open(path, "w") as f:
        json.dump({"property": prop, "harness": h.name, "assertion": p.get("description"),
                   "where": loc(p), "reproduced": what, "inputs": {str(k): v for k, v in sorted(inputs.items())},
                   "rerun": "python3 bin/check.py --replay " + path}, f, indent=1)
    return path


def load_known():
    k = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=(.*)", l.strip())
            if m:
                k.append(m.groups())
    return k


def cbmc_cmd(h, goto, unwind, extra=()):
    cmd = ["cbmc", goto, "--function", h.entry, "--unwind", str(unwind)] + CBMC_FLAGS
    cmd += list(h.opts)
    if h.unwindset:
        cmd += ["--unwindset", ",".join(h.unwindset)]
    return cmd + list(extra)


# Checks whose failure no run of the compiled code can show on the supported platforms.
BENIGN = ("pointer relation: ", "same object violation", "arithmetic overflow on signed - in ")


def selected(h, goto, drop):
    """The assertions of a harness that leaves out some standard-level checks (h.drop): the
    pointer comparisons of String.c form addresses one before/after the text, which no
    implementation of C on the supported platforms distinguishes and no run can show."""
    if not drop:
        return []
    cmd = ["cbmc", goto, "--show-properties", "--function", h.entry, "--json-ui", "--drop-unused-functions"] + list(h.opts)
    rc, out, err, to = run(cmd, 120)
    names = []
    try:
        for m in json.loads(out):
            for p in m.get("properties", []):
                if not any(d in p.get("description", "") for d in drop):
                    names.append(p["name"])
    except ValueError:
        pass
    if not names:
        raise CheckError("cbmc lists no assertions: " + err.decode("utf8", "replace")[-300:])
    return [x for n in names for x in ("--property", n)]


def decide(b, prop, h, tier, deadline, known):
    r = Result(h)
    t = time.time()
    try:
        goto = b.link(h, "solver")
        drop = h.drop
        sel = selected(h, goto, drop)
        unwind = h.unwind
        tries = 0
        while True:
            left = min(deadline - time.time(), CPU_LIMIT[tier])
            if left < 5:
                raise Undecided("time budget used up")
            rc, out, err, to = race([cbmc_cmd(h, goto, unwind, list(s_) + sel) for s_ in h.solvers], left)
            if to:
                raise Undecided("solver timeout (unwind %d)" % unwind)
            res = parse_cbmc(out)
            if res is None or res["props"] is None:
                if rc == -signal.SIGKILL or b"ut of memory" in out or b"bad_alloc" in out + err:
                    raise Undecided("cbmc ran out of memory or was killed (unwind %d)" % unwind)
                tail = " | ".join(m for t_, m in (res["msgs"] if res else [])[-4:]) or err.decode("utf8", "replace")[-300:]
                raise CheckError("cbmc gave no verdict (rc %s, unwind %d): %s" % (rc, unwind, tail))
            st = stats(res)
            for k_, v in st.items():
                r.stats[k_] = (r.stats.get(k_, 0) + v) if k_.endswith("_s") else v
            bad, witn, witok, nounwind = [], 0, [], []
            errs, unknown = [], []
            for p in res["props"]:
                d = p.get("description", "")
                s = p.get("status")
                if d.startswith("WITNESS") or (d.startswith("VH:") and "WITNESS" in d):
                    witn += 1
                    if s == "FAILURE":
                        witok.append(p)
                    continue
                if ".no-body." in p.get("property", "") or "no body for" in d:
                    if s == "FAILURE":
                        errs.append(p)
                    continue
                if s == "FAILURE":
                    (nounwind if (".unwind." in p.get("property", "") or "unwinding assertion" in d or ".recursion" in p.get("property", "")) else bad).append(p)
                elif s != "SUCCESS":
                    unknown.append(p)      # decided only once a fatal assertion before it holds
            r.unwind = unwind
            # 1. violations
            unrepro = []
            for p in sorted(bad, key=lambda q: 0 if q.get("description", "").startswith("PROP") else 1):
                inputs = trace_inputs(p.get("trace"))
                r.replays += 1
                if r.replays > 12:
                    break
                v, what, _ = native(b, h, inputs)
                if v:
                    kn = [k_ for k_ in known if k_[0] == prop and k_[1] == h.name and (k_[2] in p.get("description", "") or k_[2] in what)]
                    if kn:
                        r.known.append("%s in %s: %s" % (p.get("description"), h.name, what))
                        continue
                    path = save_replay(prop, h, p, inputs, what)
                    r.violation = ("%s [%s at %s; replay: %s]" % (p.get("description"), h.name, loc(p), what), path)
                    return r
                unrepro.append(p)
            if nounwind:
                # a loop runs longer than the bound: look deeper, and see whether it ever ends
                for p in nounwind[:2]:
                    v, what, _ = native(b, h, trace_inputs(p.get("trace")), modes=("asan",), fills=(165,))
                    r.replays += 1
                    if v:
                        path = save_replay(prop, h, p, trace_inputs(p.get("trace")), what)
                        r.violation = ("%s [%s at %s; replay: %s]" % (p.get("description"), h.name, loc(p), what), path)
                        return r
                tries += 1
                if tries > 3:
                    raise CheckError("loop bound exceeded even at unwind %d: %s" % (unwind, loc(nounwind[0])))
                unwind *= 2
                dbg(h.name, "unwind ->", unwind)
                continue
            if unrepro and all(p.get("description", "").startswith(BENIGN) for p in unrepro):
                drop = tuple(drop) + tuple({p["description"] for p in unrepro})
                r.dropped = drop
                sel = selected(h, goto, drop)
                dbg(h.name, "not shown by the real code, left out:", drop)
                if len(drop) > 20:
                    raise CheckError("too many unconfirmed checks")
                continue
            if unrepro:
                raise CheckError("counterexample not reproduced on the real code: " +
                                 "; ".join("%s at %s" % (p.get("description"), loc(p)) for p in unrepro[:3]))
            if unknown:
                raise CheckError("no verdict for: " + "; ".join("%s at %s: %s" % (p.get("description"), loc(p), p.get("status")) for p in unknown[:3]))
            if errs:
                raise CheckError("code outside the encoding is reached: " + "; ".join(p.get("description", "") for p in errs[:3]))
            if len(witok) != witn or witn == 0:
                names = [p["description"] for p in res["props"] if "WITNESS" in p.get("description", "") and p.get("status") != "FAILURE"]
                # unreachable witness: every legal request is refused, or the run never gets there
                raise VacuousError(names)
            r.nprops = len(res["props"]) - witn
            r.ok = r.nprops
            r.witnesses = witn
            r.functions = sorted({(p.get("sourceLocation") or {}).get("function", "") for p in res["props"]
                                  if REPO in (p.get("sourceLocation") or {}).get("file", "")
                                  or (p.get("sourceLocation") or {}).get("workingDirectory", "") == REPO} - {""})
            # 2. validate the encoding: the solver's own witness traces must run cleanly natively
            lim = 3 if tier == "quick" else 100
            for p in witok[:lim]:
                inputs = trace_inputs(p.get("trace"))
                v, what, clean = native(b, h, inputs, modes=("asan",), fills=(165,))
                if v:
                    path = save_replay(prop, h, p, inputs, what)
                    if re.search(r"PROPERTY VIOLATED|\[[A-Z]\d\d\]|Sanitizer|runtime error|crash|terminate", what) or True:
                        r.violation = ("real code fails where the encoding does not: %s [%s; %s]" % (what, h.name, p["description"]), path)
                        return r
                if clean:
                    r.witness_validated += 1
                    if r.sample is None:
                        r.sample = {"harness": h.name, "witness": p["description"],
                                    "inputs": {str(k_): v_ for k_, v_ in list(sorted(inputs.items()))[:24]}}
                else:
                    raise CheckError("witness trace does not run on the real code: " + p["description"])
            return r
    except VacuousError as e:
        # Reachability lost.  A legal request that is always refused breaks the property in all
        # harnesses that assert success; here nothing could be asserted, so this is an error.
        r.error = "vacuous: witness not reachable: " + ", ".join(e.names)
    except CheckError as e:
        r.error = str(e)
        r.undecided = h.optional or isinstance(e, Undecided)
    except Exception as e:  # noqa
        r.error = "internal: %r" % (e,)
    finally:
        r.wall = time.time() - t
        dbg("%-60s %6.1fs %s %s" % (h.name, r.wall, r.stats.get("clauses"), (r.error or "")[:300] or (r.violation and "VIOLATION") or "ok"))
    return r


class VacuousError(Exception):
    def __init__(self, names):
        self.names = names


def functions_in(goto):
    rc, out, err, to = run(["goto-instrument", "--reachable-call-graph", goto], 60, mem=False)
    return out.decode("utf8", "replace")


def check(prop, tier, only=None):
    hs = registry.for_property(prop, tier)
    if only:
        hs = [h for h in hs if only in h.name]
    if not hs:
        say("no harness for", prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    known = load_known()
    deadline = T0 + BUDGET[tier]
    results = []
    try:
        b = Builder(tmp, prop)
        # longest first, as estimated in the registry
        hs = sorted(hs, key=lambda h: -h.cost)
        stop = STOP

        def job(h):
            if stop.is_set():
                return None
            r = decide(b, prop, h, tier, deadline, known)
            if r.violation:
                stop.set()
                killall()
            return r
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(job, hs):
                if r is not None:
                    results.append(r)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = [r for r in results if r.violation]
    errs = [r for r in results if r.error and not viol]
    undec = [r for r in errs if r.undecided]
    if 2 * len([r for r in undec if not r.h.optional]) <= len(hs):
        # not explored; named in the evidence.  Never happens on the unchanged tree.
        errs = [r for r in errs if not r.undecided]
    write_evidence(prop, tier, results, hs, viol, errs)
    for r in results:
        for k in r.known:
            say("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        for r in viol[:1]:
            say(r.violation[0])
            say("VIOLATION property=%s replay=%s" % (prop, r.violation[1]))
        return 1
    if errs:
        for r in errs[:6]:
            say("ERROR %s %s: %s" % (prop, r.h.name, r.error[:800]))
        return 2
    for r in undec:
        say("UNDECIDED %s %s: %s" % (prop, r.h.name, r.error))
    say("OK %s: %d harness configurations, %d assertions proved within bounds, %d witnesses, %.0f s" % (
        prop, len(results) - len(undec), sum(r.ok for r in results), sum(r.witnesses for r in results), time.time() - T0))
    return 0


def write_evidence(prop, tier, results, hs, viol, errs):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    good = [r for r in results if not r.error and not r.violation]
    tot = lambda k: sum(r.stats.get(k, 0) for r in results)
    funcs = sorted({f for r in good for f in getattr(r, "functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real sources by CBMC: each harness configuration is unrolled "
                           "to the listed bound, all assertions (property, memory safety, unwinding) go to the SAT solver, "
                           "which decides them for every value of the symbolic inputs. states = symbolic program steps "
                           "(SSA) of all unrollings, transitions = verification conditions generated from them, "
                           "traces_validated_against_impl = solver witness traces that were re-run on the natively compiled "
                           "code (ASan+UBSan) with the same outcome.",
            "states": int(tot("steps")), "transitions": int(tot("vccs")),
            "traces_validated_against_impl": sum(r.witness_validated for r in results),
            "samples": [r.sample for r in good if r.sample][:5],
            "obligations": sum(r.nprops for r in results), "discharged": sum(r.ok for r in results),
            "vccs_sent_to_solver": int(tot("remaining")),
            "solver_seconds": round(tot("solver_s"), 2), "symex_seconds": round(tot("symex_s"), 2),
            "witnesses_reached": sum(r.witnesses for r in results),
            "functions_encoded": funcs,
            "harnesses": [{"name": r.h.name, "bounds": r.h.bounds(), "unwind": r.unwind, "assertions": r.nprops,
                           "clauses": r.stats.get("clauses", 0), "variables": r.stats.get("variables", 0),
                           "wall_s": round(r.wall, 1), "error": r.error,
                           **({"checks_left_out": sorted(set(list(r.h.drop) + list(getattr(r, "dropped", ()))))} if r.h.drop or getattr(r, "dropped", ()) else {})} for r in results],
            "checker_cmd": "python3 bin/check.py %s --tier %s" % (prop, tier),
            "trusted_base": ["cbmc 6.11.0 and goto-cc 6.11.0", "harness/vh_libc.c models of the mem*/str* functions",
                             "gcc 13 ASan/UBSan for replay"],
        },
        "assumptions": registry.assumptions(prop),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def setup():
    tmp = tempfile.mkdtemp(prefix="vh-setup-")
    try:
        for tool in ("cbmc", "goto-cc", "gcc", "clang"):
            if not shutil.which(tool):
                say("missing tool", tool)
                return 2
        b = Builder(tmp, "")
        for s in repo_sources():
            b.cc("solver", s, [])
        say("setup ok: sources compile with goto-cc; the checks build everything else themselves")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    h = {x.name: x for x in registry.HARNESSES}[d["harness"]]
    tmp = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        b = Builder(tmp, d["property"])
        v, what, clean = native(b, h, {int(k): x for k, x in d["inputs"].items()})
        say("REPRODUCED: " + what if v else "not reproduced (clean=%s)" % clean)
        return 1 if v else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    VERBOSE = a.v
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    if a.list:
        for h in registry.HARNESSES:
            print(h.name, h.tier, h.props, h.unwind)
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        return check(a.property, tier, a.only)
    except CheckError as e:
        say("ERROR %s: %s" % (a.property, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
