"""Common machinery: running TLC, verdicts, evidence, known findings."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from pathlib import Path

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_k, "1")

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPECS = VERIF / "specs"
EVID = VERIF / "evidence"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Machinery(Exception):
    """Something of ours failed (not the code under test)."""


class Undefined(Machinery):
    """TLC could not evaluate the specification on recorded cases."""

    def __init__(self, text, tlc):
        super().__init__(text)
        self.tlc = tlc


def bootstrap():
    os.environ["MPLBACKEND"] = "Agg"
    # matplotlib must not write anywhere else
    scratch = tempfile.mkdtemp(prefix="verif_")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
    os.environ["MPLCONFIGDIR"] = scratch
    for f in Path("/opt/vp/mpl").glob("fontlist-*.json"):
        shutil.copy(f, scratch)
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    sys.dont_write_bytecode = True
    import surface_sim

    where = Path(surface_sim.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise Machinery(f"surface_sim comes from {where}, not from {REPO}")


def _find_cp():
    cps = []
    for root in ("/opt/veriftools/tla", "/opt/veriftools"):
        for n in ("tla2tools.jar", "CommunityModules-deps.jar"):
            for p in Path(root).rglob(n):
                if str(p) not in cps:
                    cps.append(str(p))
    if not any("tla2tools" in c for c in cps):
        raise Machinery("tla2tools.jar not found")
    return ":".join(cps)


def java_cp():
    cp = JAVA_CP
    if all(Path(p).exists() for p in cp.split(":")):
        return cp
    return _find_cp()


class TLC:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.finished = "Model checking completed" in out or "Finished in" in out
        self.no_error = "No error has been found" in out
        self.violated = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated", out)

    def tuples(self, tag):
        """Verdicts printed by PrintT(<<"tag", ...>>), as lists."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith(f'<<"{tag}"') and line.endswith(">>"):
                res.append(json.loads("[" + line[2:-2] + "]"))
        return res


def run_tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", args=(), expect_ok=True):
    """Run TLC on specs/<module>.tla.  Returns TLC (raises Machinery on a TLC failure)."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-XX:+UseParallelGC", "-cp", java_cp(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
               "-config", str(SPECS / (cfg or module + ".cfg")), *args, str(SPECS / (module + ".tla"))]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=str(SPECS), env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC {module} did not finish in {timeout} s")
        r = TLC(p.stdout + p.stderr, p.returncode, time.time() - t0)
        if expect_ok and "TLC was evaluating the nested" in r.out and "CASES" in e:
            raise Undefined(f"TLC {module} failed (rc={p.returncode}):\n" + r.out[-4000:], r)
        if expect_ok and (p.returncode != 0 or not r.no_error):
            raise Machinery(f"TLC {module} failed (rc={p.returncode}):\n" + r.out[-4000:])
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def validate(module, cases, cfg=None, env=None, batches=None, workers=8, timeout=800, heap="6g"):
    """Give recorded cases (list of dicts with an integer "id") to a trace
    specification that prints exactly one verdict <<"OK", id>> or
    <<"BAD", id, ...>> per case.  Returns ({id: [..] for bad}, tlc stats)."""
    if not cases:
        return {}, dict(states=0, transitions=0, traces=0, wall=0.0)
    ids = {c["id"] for c in cases}
    if len(ids) != len(cases):
        raise Machinery("duplicate case ids")
    fd, path = tempfile.mkstemp(prefix="cases_", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(cases, f)
        r = run_tlc(module, cfg=cfg, env={**(env or {}), "CASES": path}, workers=workers, timeout=timeout, heap=heap)
    except Undefined as e:
        # what was recorded lies outside of what the specification gives a meaning to: no behaviour of it
        again = dict(cfg=cfg, env=env, workers=workers, timeout=timeout, heap=heap)
        if len(cases) == 1:
            return {cases[0]["id"]: meaningless(module)}, dict(states=0, transitions=0, traces=1, wall=0.0, tlc=e.tlc)
        for part in (cases[:len(cases) // 2], cases[len(cases) // 2:]):
            bad, st = validate(module, part, **again)
            if bad:  # one of them is enough
                return bad, st
        raise Machinery(f"TLC {module} only fails on all the cases together\n{e}")
    finally:
        os.unlink(path)
    ok = {t[1] for t in r.tuples("OK")}
    bad = {t[1]: t[2:] for t in r.tuples("BAD")}
    if (ok | set(bad)) != ids or (ok & set(bad)):
        miss = ids - ok - set(bad)
        raise Machinery(f"TLC {module}: missing verdicts for {sorted(miss)[:5]} ({len(miss)} cases)\n{r.out[-3000:]}")
    return bad, dict(states=r.distinct, transitions=r.generated, traces=len(cases), wall=r.wall, tlc=r)


def meaningless(module):
    """A verdict in the form of those of the specification."""
    text = (SPECS / (module + ".tla")).read_text()
    last = re.findall(r'PrintT\(<<"BAD", (.*?)>>\)', text)[-1]
    fields, deep = [""], 0
    for ch in last:
        deep += ch in "([<{"
        deep -= ch in ")]>}"
        if ch == "," and not deep:
            fields.append("")
        else:
            fields[-1] += ch
    said = [k for k, f in enumerate(fields[1:]) if f.strip() in ("err", "v", "bad", "End", "Verdict") or "Clause" in f]
    return ["nothing the specification gives a meaning to" if k == said[0] else 1 for k in range(len(fields) - 1)]


class Check:
    """One property check: collects violations, known findings and coverage."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = SEED
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.known_seen = []
        self.known = [k for k in json.loads((VERIF / "known_findings.json").read_text())["findings"]
                      if k["property"] == prop and k.get("status") == "open"]

    thorough = property(lambda self: self.tier == "thorough")

    def stats(self, st):
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["traces_validated_against_impl"] += st["traces"]

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, clause, desc, key=None, **data):
        """clause: short name of what is broken; desc: the failing input/history;
        key identifies the input for the known-findings file."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in self.known_seen:
                    self.known_seen.append(k)
                return
        self.violations.append(dict(clause=clause, what=desc, **data))

    def finish(self):
        EVID.mkdir(exist_ok=True)
        rep = EVID / "replay"
        rep.mkdir(exist_ok=True)
        f = EVID / f"{self.prop}.json"
        self.cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        f.write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k in self.known_seen:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        path = rep / f"{self.prop}.json"
        if self.violations:
            path.write_text(json.dumps(dict(property=self.prop, seed=self.seed, tier=self.tier,
                                            violations=self.violations[:50]), indent=1, default=str) + "\n")
            for v in self.violations[:5]:
                print(f"  {v['clause']}: {json.dumps(v['what'], default=str)[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            return 1
        if path.exists():
            path.unlink()
        print(f"{self.prop} held: {json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})}"
              f" in {ev['wall_s']} s")
        sys.stdout.flush()
        return 0


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    return f"{type(e).__name__}: {str(e)[:300]}" + (f" at {Path(last.filename).name}:{last.lineno}" if last else "")


class CaseTimeout(Exception):
    pass


def call(fn, seconds=60):
    """(value, None) or (None, description of the exception raised by fn)."""
    import signal

    def onalarm(*_):
        raise CaseTimeout(f"no answer in {seconds} s")

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        return fn(), None
    except Machinery:
        raise
    except BaseException as e:  # noqa: the code under test may raise anything
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, describe_exc(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def pmap(fn, items, procs=8, chunksize=1):
    """Parallel map over forked workers, order-preserving."""
    import multiprocessing as mp

    items = list(items)
    if len(items) <= 1 or procs == 1:
        return [fn(i) for i in items]
    with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
        return pool.map(fn, items, chunksize=chunksize)


def main(prop, body):
    try:
        bootstrap()
        c = Check(prop)
        try:
            body(c)
        except (Machinery, OSError, MemoryError, ImportError, subprocess.SubprocessError):
            raise
        except Exception as e:
            # the harness reads every answer of the unchanged code: this one is of another form
            traceback.print_exc()
            c.violation("unreadable answer", dict(error=describe_exc(e)))
        return c.finish()
    except Machinery as e:
        print(f"MACHINERY {prop}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
