"""Driver shared by all checks.

Parent side (``main``): copies /repo's current working tree to a scratch folder, generates the
simulator kernels and compiles the extensions there, runs the workload in a fresh interpreter that
imports the package from the scratch folder, and turns the recorded observations into the verdict,
the evidence file and the VIOLATION / KNOWN-FINDING lines.

Child side (``child_main``): runs the sections of the check module.  A section is a function
``fn(r, rng, i)`` which performs case number ``i`` and reports to the recorder ``r``.

Verdicts: exit 0 held on everything observed, exit 1 violated, exit 3 inconclusive (a monitor that
should have observed something was never reached, the watchdog fired, the build failed).
"""
import argparse, hashlib, importlib.util, json, os, random, re, shutil, signal, subprocess, sys
import tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


# --------------------------------------------------------------------------- scratch build

def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "PYTHONSTARTUP")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.update(extra or {})
    return env


def copy_tree(dst):
    os.makedirs(dst, exist_ok=True)
    for name in ("setup.py", "pyproject.toml", "setup.cfg", "README.rst", "LICENSE"):
        p = os.path.join(REPO, name)
        if os.path.exists(p):
            shutil.copy2(p, dst)

    def ign(d, names):
        out = [n for n in names if n == "__pycache__" or n.endswith((".so", ".pyc"))]
        if d.endswith("simulator"):
            out += [n for n in names if n in ("ops.h", "ops.pxd", "simulator.cpp")]
        if d.endswith("registers"):
            out += [n for n in names if n == "cyregister.cpp"]
        return out
    shutil.copytree(os.path.join(REPO, "dwave"), os.path.join(dst, "dwave"), ignore=ign)


def build(dst, flags="-O1 -g0", ldflags="", simulator=True, log=None):
    """Copies and builds the package in ``dst``.  Returns None, or an error text."""
    copy_tree(dst)
    if not simulator:
        # only the register extension is needed: leave the simulator out of this build
        setup = open(os.path.join(dst, "setup.py")).read()
        new = re.sub(r'["\']dwave/gate/simulator/simulator\.pyx["\'],?', "", setup)
        open(os.path.join(dst, "setup.py"), "w").write(new)
    env = clean_env({"CFLAGS": flags, "CXXFLAGS": flags, "LDFLAGS": ldflags})
    cmds = []
    if simulator:
        cmds.append([PY, "dwave/gate/simulator/operation_generation.py"])
    cmds.append([PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "4"])
    for c in cmds:
        p = subprocess.run(c, cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=600)
        if p.returncode:
            return f"{' '.join(c)} failed ({p.returncode}):\n{p.stdout[-4000:]}"
    return None


# --------------------------------------------------------------------------- recorder

class Violation(Exception):
    def __init__(self, key, msg, witness=None):
        super().__init__(msg)
        self.key, self.msg, self.witness = key, msg, witness


class Inconclusive(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if hasattr(x, "tolist"):
        try:
            return jsonable(x.tolist(), depth + 1)
        except Exception:
            pass
    return repr(x)[:300]


class Recorder:
    """What the monitors observed."""

    def __init__(self):
        self.events = {}
        self.evals = 0
        self.distinct = set()
        self.samples = {}
        self.section = None
        self.violations = []
        self.inconclusive = []
        self.case = None
        self.tier = "quick"

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, desc, nontrivial=True):
        """Registers the descriptor of the present case; counts it as distinct if non-trivial."""
        self.case = desc
        if nontrivial:
            h = hashlib.blake2b(json.dumps(jsonable(desc), sort_keys=True).encode(), digest_size=8)
            self.distinct.add(h.hexdigest())
            if self.section not in self.samples:
                self.samples[self.section] = jsonable(desc)

    def check(self, cond, key, msg="", **witness):
        """One evaluation of a monitor."""
        self.events["monitor_evaluations"] = self.events.get("monitor_evaluations", 0) + 1
        if not cond:
            raise Violation(key, f"{key}: {msg}", witness)

    def raises(self, exc, fn, key, msg=""):
        """The call must raise one of ``exc``."""
        self.events["monitor_evaluations"] = self.events.get("monitor_evaluations", 0) + 1
        try:
            res = fn()
        except exc:
            self.event("refused_with_exception")
            return
        except Exception as e:  # wrong kind of exception
            raise Violation(key, f"{key}: raised {type(e).__name__}: {e} instead of {exc}. {msg}")
        raise Violation(key, f"{key}: no exception (got {res!r:.200}); expected {exc}. {msg}")


# --------------------------------------------------------------------------- child

def case_rng(pid, seed, section, i):
    if "gen" in sys.modules:  # decides where calls take place, see gen.anywhere
        sys.modules["gen"].CASE.seed(f"{pid}/{seed}/{section}/{i}/anywhere")
    return random.Random(f"{pid}/{seed}/{section}/{i}")


MAX_VIOL = 25


def run_slice(mod, pid, seed, tier, worker, nworkers, deadline, only=None, trace=None):
    import warnings
    warnings.simplefilter("ignore")
    r = Recorder()
    r.tier = tier
    for sec in mod.SECTIONS:
        name, fn, nq, nt = sec[:4]
        n = nt if tier == "thorough" else min(nt, nq * getattr(mod, "SCALE", 1))
        done = 0
        # a slow machine must not keep the later sections from being run at all
        now = time.monotonic()
        until = deadline if sec is mod.SECTIONS[-1] else now + 0.75 * max(0, deadline - now)
        if only:
            if only[0] != name:
                continue
            idxs = [only[1]]
        else:
            idxs = range(worker, n, nworkers)
        for i in idxs:
            if time.monotonic() > (until if done >= 3 else deadline) and not only:
                r.event(f"time_capped:{name}")
                break
            if len(r.violations) >= MAX_VIOL:
                break
            r.case = None
            r.section = name
            if trace:
                with open(trace, "w") as f:
                    f.write(f"{name}:{i}")
            try:
                r.evals += 1
                fn(r, case_rng(pid, seed, name, i), i)
                done += 1
            except Violation as v:
                r.violations.append(dict(section=name, index=i, key=v.key, msg=v.msg[:2000],
                                         case=jsonable(r.case), witness=jsonable(v.witness)))
            except Inconclusive as e:
                r.inconclusive.append(f"{name}:{i}: {e}")
            except MemoryError as e:
                r.inconclusive.append(f"{name}:{i}: MemoryError {e}")
            except Exception as e:
                tb = traceback.format_exc()
                r.violations.append(dict(section=name, index=i, key=f"{name}:unexpected-exception",
                                         msg=f"{name}: unexpected {type(e).__name__}: {e}",
                                         case=jsonable(r.case), witness=tb[-3000:]))
        r.event(f"cases:{name}", done)
    return dict(events=r.events, evals=r.evals, distinct=sorted(r.distinct), samples=r.samples,
                violations=r.violations, inconclusive=r.inconclusive)


def child_main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("module"); ap.add_argument("out"); ap.add_argument("--scratch")
    ap.add_argument("--seed", type=int); ap.add_argument("--tier"); ap.add_argument("--workers", type=int)
    ap.add_argument("--budget", type=float); ap.add_argument("--only")
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import dwave.gate
    assert os.path.realpath(dwave.gate.__file__).startswith(os.path.realpath(a.scratch) + "/"), \
        dwave.gate.__file__
    os.environ["VERIF_SCRATCH"] = a.scratch
    spec = importlib.util.spec_from_file_location("check_module", a.module)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    deadline = time.monotonic() + a.budget
    only = None
    if a.only:
        s, _, i = a.only.rpartition(":")
        only = (s, int(i))
        a.workers = 1
    if a.workers <= 1:
        res = [run_slice(mod, mod.PID, a.seed, a.tier, 0, 1, deadline, only)]
    else:
        pids = []
        for w in range(a.workers):
            path = f"{a.out}.{w}"
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    d = run_slice(mod, mod.PID, a.seed, a.tier, w, a.workers, deadline,
                                  trace=f"{path}.trace" if getattr(mod, "TRACE", False) else None)
                    with open(path, "w") as f:
                        json.dump(d, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            pids.append((pid, w, path))
        res = []
        for pid, w, path in pids:
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st):
                try:
                    at = open(f"{path}.trace").read()
                except OSError:
                    at = "unknown case"
                res.append(dict(crash=f"worker {w} killed by signal {os.WTERMSIG(st)} in case {at}",
                                signal=os.WTERMSIG(st), at=at))
            elif os.WEXITSTATUS(st):
                res.append(dict(error=f"worker {w} exited {os.WEXITSTATUS(st)}"))
            else:
                res.append(json.load(open(path)))
    with open(a.out, "w") as f:
        json.dump(res, f)


# --------------------------------------------------------------------------- parent

def load_known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == pid}


def write_evidence(pid, tier, seed, cov, t0, nviol, assumptions):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
             assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    tmp = os.path.join(EVID, f".{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))


def merge(results):
    ev, dist, samples, viols, inc, crashes, errors = {}, set(), {}, [], [], [], []
    evals = 0
    for d in results:
        if "crash" in d:
            crashes.append(d)
            continue
        if "error" in d:
            errors.append(d["error"])
            continue
        for k, v in d["events"].items():
            ev[k] = ev.get(k, 0) + v
        evals += d["evals"]
        dist |= set(d["distinct"])
        for k, v in d["samples"].items():
            samples.setdefault(k, v)
        viols += d["violations"]
        inc += d["inconclusive"]
    return ev, dist, samples, viols, inc, crashes, errors, evals


def finish(pid, tier, seed, t0, merged, rule, required, assumptions, extra_cov=None):
    """Writes the evidence and prints the verdict; returns the exit code."""
    ev, dist, samples, viols, inc, crashes, errors, evals = merged
    known = load_known(pid)
    viols.sort(key=lambda v: (v["section"], v["index"]))
    new, listed = [], {}
    for v in viols:
        if v["key"] in known:
            listed.setdefault(v["key"], []).append(v)
        else:
            new.append(v)
    for c in crashes:
        s, _, i = c.get("at", "process:0").rpartition(":")
        new.append(dict(section=s or "process", index=int(i) if i.isdigit() else 0, key="crash", msg=c["crash"],
                        case=None, witness=c.get("log", "")))
    cov = dict(evaluations=evals, distinct_nontrivial=len(dist), rule=rule, samples=[dict(section=k, case=v) for k, v in sorted(samples.items())][:10],
               events=dict(sorted(ev.items())), known_findings_seen={k: len(v) for k, v in listed.items()},
               exhaustive=False)
    cov.update(extra_cov or {})
    write_evidence(pid, tier, seed, cov, t0, len(new), assumptions)
    for k in known:
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {known[k]['what']} [{k}]")
        else:
            print(f"note: listed finding not observed in this run: {k}")
    print(f"{pid}: {evals} cases, {len(dist)} distinct non-trivial, "
          f"{ev.get('monitor_evaluations', 0)} monitor evaluations, {round(time.time() - t0, 1)} s")
    if new:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        keys = []
        for v in new:
            if v["key"] in keys:
                continue
            keys.append(v["key"])
            path = os.path.join(rdir, f"{pid}-{len(keys)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, replay=(
                    f"cd {VERIF} && VERIF_SEED={seed} VERIF_TIER={tier} {PY} checks/{pid.lower()}.py "
                    f"--only {v['section']}:{v['index']}"), **v), f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {v['msg'][:600]}")
            if len(keys) >= 5:
                break
        return 1
    if errors or inc:
        for e in (errors + inc)[:10]:
            print(f"INCONCLUSIVE: {e}")
        return 3
    missing = [k for k in required if not ev.get(k)]
    if missing:
        print(f"INCONCLUSIVE: monitors never reached: {missing}")
        return 3
    return 0


def main(module_file, mod_globals):
    pid = mod_globals["PID"]
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    needs_sim = mod_globals.get("NEEDS_SIMULATOR", True)
    workers = mod_globals.get("WORKERS", 6)
    budget = mod_globals.get("BUDGET", {}).get(a.tier, 60 if a.tier == "quick" else 600)
    scratch = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    code = 3
    try:
        tree = os.path.join(scratch, "tree")
        pre = os.environ.get("VERIF_DEV_TREE")  # development only: a tree built beforehand
        if pre:
            tree = pre
            err = None
        else:
            err = build(tree, simulator=needs_sim, **mod_globals.get("BUILD", {}))
        if err:
            print(f"INCONCLUSIVE: build failed\n{err}")
            return 3
        build_s = round(time.time() - t0, 2)
        out = os.path.join(scratch, "out.json")
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "lib", "child.py"), os.path.abspath(module_file),
               out, "--scratch", tree, "--seed", str(a.seed), "--tier", a.tier, "--workers", str(workers),
               "--budget", str(budget)]
        if a.only:
            cmd += ["--only", a.only]
        log = open(os.path.join(scratch, "log"), "w+")
        env = {"PYTHONPATH": tree, "TMPDIR": scratch}
        env.update(mod_globals.get("CHILD_ENV", {}))
        p = subprocess.Popen(cmd, cwd=scratch, env=clean_env(env),
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=min(budget * 1.5 + 60, 860 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            print("INCONCLUSIVE: watchdog stopped the workload")
            return 3
        log.seek(0)
        text = log.read()
        if p.returncode < 0:
            results = [dict(crash=f"workload killed by signal {-p.returncode}", log=text[-3000:])]
        elif p.returncode or not os.path.exists(out):
            print(f"INCONCLUSIVE: workload failed ({p.returncode})\n{text[-4000:]}")
            return 3
        else:
            results = json.load(open(out))
        if text.strip():
            sys.stderr.write(text[-2000:])
        required = [] if a.only else list(mod_globals.get("REQUIRED", []))
        for d in results:
            if "crash" in d:
                k = max(text.find("ERROR: AddressSanitizer"), text.find("runtime error:"))
                d.setdefault("log", text[max(0, k - 200):k + 6000] if k >= 0 else text[-3000:])
                d["crash"] += ": " + " ".join(re.findall(r"(?:ERROR: AddressSanitizer: [\w-]+|runtime error:[^\n]*)",
                                                         text)[:2])
            if d.get("signal") == signal.SIGKILL:  # out of memory: no verdict
                d["error"] = d.pop("crash")
        code = finish(pid, a.tier, a.seed, t0, merge(results), mod_globals["RULE"], required,
                      mod_globals.get("ASSUMPTIONS", []), dict(build_s=build_s, workers=workers))
        return code
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


def run(module_file, mod_globals):
    sys.exit(main(module_file, mod_globals))
