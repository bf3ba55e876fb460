"""Common machinery: run histories on the real code, validate the recorded
traces with TLC against the TLA+ specification, model-check the specification,
write evidence and report violations.

This module never judges the code's values: verdicts come from TLC."""

import json
import math
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = os.path.join(VERIF, "tla")
BUILD = os.path.join(VERIF, ".build")
CP = ":".join(
    [
        BUILD,
        "/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar",
    ]
)
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = min(8, os.cpu_count() or 1)


# ---------------------------------------------------------------- numbers
def num(x):
    """Textual form of one observed scalar (what the spec's Num module reads)."""
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        return "T" if x else "F"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return fl(x)
    import numpy as np

    try:
        a = np.asarray(x)
    except Exception:
        return "?" + type(x).__name__
    if a.shape != ():
        return "?array%s" % (a.shape,)
    if a.dtype == bool:
        return "T" if bool(a) else "F"
    if a.dtype.kind in "iu":
        return str(int(a))
    if a.dtype.kind == "f":
        return fl(float(a))
    return "?" + str(a.dtype)


def fl(x):
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    return repr(float(x))


def nums(arr):
    import numpy as np

    a = np.asarray(arr)
    return [num(v) for v in a.ravel().tolist()]


# ---------------------------------------------------------------- tlc
class MachineryError(Exception):
    pass


def build_java():
    src = [os.path.join(TLA, f) for f in sorted(os.listdir(TLA)) if f.endswith(".java")]
    os.makedirs(BUILD, exist_ok=True)
    need = []
    for s in src:
        c = os.path.join(BUILD, os.path.basename(s)[:-5] + ".class")
        if not os.path.exists(c) or os.path.getmtime(c) < os.path.getmtime(s):
            need.append(s)
    if need:
        tmp = tempfile.mkdtemp(prefix="vjavac")
        try:
            subprocess.run(
                ["javac", "-d", tmp, "-cp", CP.split(":", 1)[1]] + need, check=True
            )
            for f in os.listdir(tmp):
                dst = os.path.join(BUILD, f)
                shutil.copy(os.path.join(tmp, f), dst + ".tmp%d" % os.getpid())
                os.replace(dst + ".tmp%d" % os.getpid(), dst)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def tlc_cmd(module, cfg, meta, workers=1, extra=(), heap="3g"):
    return [
        "java",
        "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-Xmx" + heap,
        "-Xss64m",
        "-cp",
        CP,
        "tlc2.TLC",
        "-metadir",
        meta,
        "-workers",
        str(workers),
        "-noGenerateSpecTE",
        "-config",
        cfg,
        *extra,
        module,
    ]


def run_tlc(module, cfg, env=None, workers=1, extra=(), timeout=600, heap="3g"):
    """Run TLC on tla/<module>.tla with tla/<cfg>; return its output."""
    meta = tempfile.mkdtemp(prefix="vtlc")
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(
            tlc_cmd(module + ".tla", cfg, meta, workers, extra, heap),
            cwd=TLA,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=timeout,
        )
        out = "\n".join(
            x
            for x in p.stdout.splitlines()
            if not x.startswith(("Loading ", "Parsing ", "Semantic ", "Linting "))
        )
        return p.returncode, out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def parse_stats(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def unq(line):
    """PrintT of a TLA+ string prints it quoted with escapes; undo that."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        try:
            return json.loads(line)
        except Exception:
            return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def _validate_one(args):
    module, path, n, timeout = args
    t0 = time.time()
    rc, out = run_tlc(
        module, "Trace.cfg", env={"VTRACE": path}, timeout=timeout, heap="3g"
    )
    bad, done, notes = [], None, {}
    for line in out.splitlines():
        s = unq(line)
        if s.startswith("BAD "):
            bad.append(json.loads(s[4:]))
        elif s.startswith("NOTE "):
            notes[s[5:]] = notes.get(s[5:], 0) + 1
        elif s.startswith("DONE "):
            done = int(s[5:])
    gen, dist = parse_stats(out)
    if done != n or rc != 0:
        return dict(error=out[-6000:] + "\n" + "\n".join(x[:300] for x in out.splitlines() if "Exception" in x or "attempted" in x.lower() or "overflow" in x.lower())[:1500], bad=bad, path=path, rc=rc, done=done, n=n)
    return dict(
        bad=bad, notes=notes, states=dist, gen=gen, path=path, n=n, wall=time.time() - t0, error=None
    )


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.violations = []
        self.known_hit = []
        self.cov = dict(
            states=0,
            transitions=0,
            traces_validated_against_impl=0,
            samples=[],
            events_validated=0,
            tlc_runs=[],
        )
        self.tmp = tempfile.mkdtemp(prefix="vchk_%s_" % pid)
        self.known = load_known(pid)
        # compiled XLA programs are shared between the driver processes of this run
        os.environ["JAX_COMPILATION_CACHE_DIR"] = os.path.join(self.tmp, "jc")
        os.environ["JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS"] = "0"
        os.environ["JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES"] = "-1"
        build_java()

    # -- exhaustive / simulated model checking of the specification itself
    def model_check(self, module, cfg, workers=NPROC, extra=(), timeout=600, env=None):
        rc, out = run_tlc(
            module, cfg, workers=workers, extra=extra, timeout=timeout, env=env, heap="8g"
        )
        gen, dist = parse_stats(out)
        if rc != 0:
            raise MachineryError(
                "specification %s/%s does not satisfy its invariants or failed:\n%s"
                % (module, cfg, out[-5000:])
            )
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["tlc_runs"].append(
            dict(module=module, cfg=cfg, states=dist, transitions=gen)
        )
        return out

    # -- behaviours generated by the specification (TLC -simulate or BFS)
    def generate(self, module, cfg, num=None, depth=None, timeout=300, env=None, seed=None):
        extra = []
        if num:
            extra = [
                "-simulate",
                "num=%d" % num,
                "-depth",
                str(depth),
                "-seed",
                str(seed or SEED),
            ]
        rc, out = run_tlc(module, cfg, extra=extra, timeout=timeout, env=env, heap="6g")
        hs = []
        for line in out.splitlines():
            s = unq(line)
            if s.startswith("HIST "):
                hs.append(json.loads(s[5:]))
        if not hs or (rc != 0):
            raise MachineryError("generation %s failed rc=%s:\n%s" % (module, rc, out[-5000:]))
        gen, dist = parse_stats(out)
        self.cov["states"] += dist
        self.cov["transitions"] += max(gen, sum(len(h) for h in hs))
        self.cov["tlc_runs"].append(
            dict(module=module, cfg=cfg, mode="generate", behaviours=len(hs))
        )
        return hs

    # -- run histories on the real code in parallel and validate the traces
    def conform(self, module, runner, histories, nshard=NPROC, timeout=800, label=None):
        """runner(history, emit): executes one history on the real code and
        emits the recorded events (dicts)."""
        label = label or module
        t0 = time.time()
        shards = [[] for _ in range(nshard)]
        for i, h in enumerate(histories):
            shards[i % nshard].append((i, h))
        shards = [s for s in shards if s]
        ctx = mp.get_context("fork")
        procs, paths = [], []
        for k, s in enumerate(shards):
            path = os.path.join(self.tmp, "%s_%d.ndjson" % (label, k))
            p = ctx.Process(target=_shard_main, args=(runner, s, path))
            p.start()
            procs.append(p)
            paths.append(path)
        for p in procs:
            p.join(timeout)
            if p.is_alive():
                p.terminate()
                raise MachineryError("driver timed out")
            if p.exitcode != 0:
                k = procs.index(p)
                tail = open(paths[k] + ".err").read()[-2000:] if os.path.exists(paths[k] + ".err") else ""
                raise MachineryError("driver shard failed (exit %s)\n%s" % (p.exitcode, tail))
        t1 = time.time()
        jobs = []
        for path in paths:
            n = sum(1 for _ in open(path))
            jobs.append((module, path, n, timeout))
        with ctx.Pool(len(jobs)) as pool:
            res = pool.map(_validate_one, jobs)
        t2 = time.time()
        notes = {}
        for r in res:
            if r["error"]:
                raise MachineryError("trace validation failed: %s" % r["error"])
            for k, v in r["notes"].items():
                notes[k] = notes.get(k, 0) + v
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["gen"]
            self.cov["events_validated"] += r["n"]
            lines = None
            for b in r["bad"]:
                if lines is None:
                    lines = open(r["path"]).read().splitlines()
                self._report(b, lines)
        self.cov["traces_validated_against_impl"] += len(histories)
        for h in histories[:2]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(
                    {"spec": module, "history": json.loads(json.dumps(h, default=str)[:3000]) if len(json.dumps(h, default=str)) < 3000 else str(h)[:1500]}
                )
        self.cov["tlc_runs"].append(
            dict(
                module=module,
                mode="trace-validation",
                histories=len(histories),
                events=sum(j[2] for j in jobs),
                drive_s=round(t1 - t0, 1),
                validate_s=round(t2 - t1, 1),
                **(dict(notes=notes) if notes else {}),
            )
        )

    def _report(self, bad, lines):
        l = bad["line"]
        start = l - 1
        while start > 0 and json.loads(lines[start])["op"] != "reset":
            start -= 1
        seg = [json.loads(x) for x in lines[start:l]]
        sig = "%s" % (bad.get("clause"),)
        for k in self.known:
            if re.search(k["match"], json.dumps([sig, seg[-1], seg[0]])):
                if k["id"] not in [x["id"] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(bad=bad, trace=seg), f, indent=1)
        self.violations.append(dict(clause=sig, event=seg[-1], replay=path, bad=bad))

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = dict(self.cov)
        if self.violations:
            cov["violated_clauses"] = sorted({v["clause"] for v in self.violations})[:50]
        cov["known_findings_seen"] = [k["id"] for k in self.known_hit]
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=SEED,
            level=self.level,
            coverage=cov,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if os.environ.get("VSUM"):
            seen = {}
            for v in self.violations:
                seen.setdefault(v["clause"], []).append(v)
            for k, vs in sorted(seen.items()):
                print("## %s x%d" % (k, len(vs)))
                for v in vs[: int(os.environ["VSUM"])]:
                    print("   ev ", json.dumps(v["event"])[:500])
                    print("   bad", json.dumps({x: v["bad"][x] for x in ("wanterr", "goterr", "at", "want", "got")})[:500])
        for v in [] if os.environ.get("VSUM") else self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            print("  clause: %s" % v["clause"])
            print("  event : %s" % json.dumps(v["event"])[:600])
            print("  expect: %s" % json.dumps(v["bad"])[:600])
        print(
            "%s %s: %d states, %d histories, %d events, %d violations, %.1fs"
            % (
                self.pid,
                self.tier,
                cov["states"],
                cov["traces_validated_against_impl"],
                cov["events_validated"],
                len(self.violations),
                time.time() - self.t0,
            )
        )
        return 1 if self.violations else 0


def load_known(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def _shard_main(runner, items, path):
    import gc

    if not os.environ.get("VDEBUG"):
        sys.stdout = open(os.devnull, "w")
        # (runtime chatter about expected errors; kept in case the driver itself fails)
        os.dup2(os.open(path + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 2)
    try:
        setup_impl()
        with open(path, "w") as f:
            for i, h in items:

                def emit(ev):
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")

                emit({"op": "reset", "hid": i})
                runner(h, emit)
        f.close()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)


def setup_impl():
    """Import the code under test from /repo's working tree."""
    import warnings

    warnings.simplefilter("ignore")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["XLA_FLAGS"] = (
        os.environ.get("XLA_FLAGS", "")
        + " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax_galsim

    assert os.path.realpath(jax_galsim.__file__).startswith(os.path.realpath(REPO)), (
        jax_galsim.__file__
    )
    return jax_galsim


def err_of(e):
    """Error observation: exception class names (most derived first)."""
    return [c.__name__ for c in type(e).__mro__ if c.__name__ not in ("object",)]


def main(pid, fn, level="model_checking"):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    c = None
    try:
        c = Check(pid, a.tier, level)
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR in check %s: %s" % (pid, e))
        if c is not None:
            if c.violations:
                rc = c.finish()
                sys.exit(rc)
            shutil.rmtree(c.tmp, ignore_errors=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if c is not None:
            shutil.rmtree(c.tmp, ignore_errors=True)
        sys.exit(2)
    sys.exit(rc)
