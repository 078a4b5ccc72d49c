#!/usr/bin/env python3
"""Runs one check: builds the monitors against /repo's working tree, runs them, writes evidence/<id>.json.

usage: run.py PROPERTY quick|thorough
       run.py PROPERTY replay FILE     run the recorded case again
       run.py setup                    build everything once (only warms caches; no check depends on it)

exit 0: held on everything explored; 1: violation (a line "VIOLATION property=<id> replay=<path>"); 2: no verdict.
"""
import itertools, json, os, pathlib, shlex, signal, subprocess, sys, time

ROOT = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
TARGET = ROOT / "target"
OUT = ROOT / "out"
EVIDENCE = ROOT / "evidence"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HOST = "x86_64-unknown-linux-gnu"
# Ways in which a memory error or an abort in the library ends the monitor process.
CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


class Violation(Exception):
    """The property does not hold: the text goes into the replay file."""


class Inconclusive(Exception):
    """The machinery failed: no verdict."""


def log(*a):
    print(*a, flush=True)


def env_for(extra=None):
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.update(extra or {})
    return env


_calls = itertools.count()


def call(cmd, timeout, env=None, cwd=ROOT):
    """Run a command in its own process group; returns (exit status, output)."""
    path = OUT / f"log.{os.getpid()}.{next(_calls)}"
    with open(path, "w+b") as f:
        p = subprocess.Popen([str(c) for c in cmd], cwd=cwd, env=env or env_for(), stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        f.seek(0)
        text = f.read().decode("utf-8", "replace")
    path.unlink()
    return rc, text


def cargo(args, timeout=800, env=None, toolchain=None, cwd=ROOT):
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + args
    rc, text = call(cmd, timeout, env_for(env), cwd)
    if rc != 0:
        raise Inconclusive(f"build failed ({rc}): {' '.join(map(str, cmd))}\n{text[-6000:]}")
    return text


_built = {}


def build(profile="dev", features=None, crate="harness", env=None, toolchain=None, target=None, name="dxlmon", suffix=""):
    """Build a crate of /verif and return the path of its binary."""
    key = (profile, features, crate, tuple(sorted((env or {}).items())), toolchain, target, suffix)
    if key in _built:
        return _built[key]
    tdir = TARGET / (crate.replace("/", "-") + suffix)
    args = ["build", "--offline", "--quiet", "--manifest-path", ROOT / crate / "Cargo.toml", "--target-dir", tdir]
    if profile == "release":
        args.append("--release")
    if features is not None:
        args += ["--no-default-features", "--features", features]
    if target:
        args += ["--target", target]
    cargo(args, env=env, toolchain=toolchain)
    path = tdir / (target or "") / ("release" if profile == "release" else "debug") / name
    _built[key] = path
    return path


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.started = time.time()
        self.stages = []
        self.left_out = []
        self.n = itertools.count()
        self.assumptions = []
        self.explanation = None

    def scratch(self, suffix):
        return OUT / f"{self.prop}.{self.tier}.{next(self.n)}.{suffix}"

    # -- running the monitor binary ------------------------------------------------------------------------------

    def monitor(self, label, args=(), binary=None, env=None, timeout=840, wrapper=(), sanitizer=False):
        """Run dxlmon for this property. Raises Violation or Inconclusive, or records the coverage."""
        binary = binary or build()
        ev, rp = self.scratch("json"), self.scratch("replay")
        for f in (ev, rp):
            f.unlink(missing_ok=True)
        cmd = list(wrapper) + ([] if binary is False else [binary]) + [self.prop, "--seed", str(SEED), "--thorough" if self.thorough else "--quick",
                                             "--evidence", ev, "--replay-out", rp] + [str(a) for a in args]
        t = time.time()
        rc, text = call(cmd, timeout, env_for(env))
        wall = time.time() - t
        where = f"{label}: {' '.join(shlex.quote(str(c)) for c in cmd)}"
        if rc == 1 and rp.exists():
            raise Violation(f"{rp.read_text()}stage: {label}\ncommand: {where}\n")
        if rc is not None and rc < 0 and -rc in CRASHES:
            raise Violation(f"property: {self.prop}\nwhat: the process was ended by {signal.Signals(-rc).name}\ncommand: {where}\noutput:\n{text[-6000:]}\n")
        if sanitizer and rc is not None and rc != 0 and any(s in text for s in SANITIZER_MARKS):
            raise Violation(f"property: {self.prop}\nwhat: the sanitizer reports an error\ncommand: {where}\noutput:\n{text[-12000:]}\n")
        if rc != 0:
            raise Inconclusive(f"{where}\nended with {rc} after {wall:.0f} s\n{text[-4000:]}")
        if not ev.exists():
            raise Inconclusive(f"{where}\nwrote no evidence")
        data = json.loads(ev.read_text())
        ev.unlink()
        log(f"[{label}] {text.strip().splitlines()[-1] if text.strip() else ''}")
        return self.stage(label, data)

    def late(self):
        """On a slow machine a quick check has to leave out some of its slow stages."""
        return not self.thorough and time.time() - self.started > 540 and len(self.stages) > 0

    def skipped(self, label):
        log(f"[{label}] left out: this machine is slow")
        self.left_out.append(label)

    def stage(self, label, data):
        data["stage"] = label
        self.stages.append(data)
        return data

    def tool(self, label, prop, args, cmd, env=None, timeout=800):
        """Run a monitor under a sanitizer or interpreter. Only what the tool reports counts, and for the property's
        own sections what they report; the results of other properties' oracles are not this check's business."""
        if self.late():
            return self.skipped(f"{label}: {prop}")
        ev, rp = self.scratch("json"), self.scratch("replay")
        for f in (ev, rp):
            f.unlink(missing_ok=True)
        cmd = list(cmd) + [prop, "--thorough" if self.thorough else "--quick", "--evidence", ev, "--replay-out", rp] + args
        where = " ".join(shlex.quote(str(x)) for x in cmd)
        t = time.time()
        rc, text = call(cmd, timeout, env_for(env))
        wall = time.time() - t
        marks = [m for m in SANITIZER_MARKS if m in text]
        signalled = rc is not None and rc < 0 and -rc in CRASHES
        if marks or (signalled and (-rc != signal.SIGABRT or any(m in text for m in ABORT_MARKS))):
            at = min((text.find(m) for m in marks), default=max(0, len(text) - 6000))
            raise Violation(f"property: {self.prop}\nwhat: {label}: {marks[0] if marks else signal.Signals(-rc).name} "
                            f"while running the {prop} workload\ncommand: {where}\nenvironment: {env}\noutput:\n{text[max(0, at - 300):at + 8000]}\n")
        if rc == 1 and rp.exists():
            if prop == self.prop:
                raise Violation(f"{rp.read_text()}stage: {label}\ncommand: {where}\n")
            log(f"[{label}] the {prop} workload ended early: its own oracle reports something (see that check)")
        elif signalled and prop != self.prop:
            log(f"[{label}] the {prop} workload ended early: the process aborted")
        elif rc != 0:
            raise Inconclusive(f"{where}\nended with {rc} after {wall:.0f} s\n{text[-4000:]}")
        if ev.exists():
            data = json.loads(ev.read_text())
            ev.unlink()
            log(f"[{label}] {prop}: {data['evaluations']} evaluations, {data['distinct_nontrivial']} distinct, {wall:.0f} s")
            self.stage(f"{label}: {prop}", data)

    # -- evidence ------------------------------------------------------------------------------------------------

    def evidence(self, level, violations=0):
        cov = {
            "evaluations": sum(s.get("evaluations", 0) for s in self.stages),
            "distinct_nontrivial": max((s.get("distinct_nontrivial", 0) for s in self.stages), default=0),
            "rule": next((s["rule"] for s in self.stages if s.get("rule")), ""),
            "samples": [x for s in self.stages for x in s.get("samples", [])][:12],
            "stages": [{k: v for k, v in s.items() if k not in ("samples", "rule", "violations", "thorough", "seed")} for s in self.stages],
        }
        if self.left_out:
            cov["left_out"] = self.left_out
        if self.explanation:
            cov["explanation"] = self.explanation
        data = {
            "property": self.prop,
            "tier": self.tier,
            "seed": SEED,
            "level": level,
            "coverage": cov,
            "wall_s": round(time.time() - self.started, 3),
            "violations": violations,
        }
        if self.assumptions:
            data["assumptions"] = self.assumptions
        EVIDENCE.mkdir(exist_ok=True)
        tmp = EVIDENCE / f".{self.prop}.tmp"
        tmp.write_text(json.dumps(data, indent=1, ensure_ascii=False) + "\n")
        tmp.replace(EVIDENCE / f"{self.prop}.json")


SANITIZER_MARKS = ("ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior", "error: memory leaked")


# How a memory error ends a process by abort() (anything else that aborts is no undefined behaviour).
ABORT_MARKS = ("unsafe precondition(s) violated", "double free", "corrupted", "invalid pointer", "invalid next size", "stack smashing")


def main():
    if len(sys.argv) < 3 and sys.argv[1:] != ["setup"]:
        log(__doc__)
        return 2
    OUT.mkdir(exist_ok=True)
    import checks
    if sys.argv[1] == "setup":
        build()
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in checks.CHECKS or tier not in ("quick", "thorough", "replay"):
        log(f"unknown check {prop} {tier}")
        return 2
    spec = checks.CHECKS[prop]
    if tier == "replay":
        text = pathlib.Path(sys.argv[3]).read_text()
        line = next((l for l in text.splitlines() if l.startswith("replay: dxlmon ")), None)
        if line is None:
            log(text)
            log("no single case is recorded here: run the command above again")
            return 2
        rc, out = call([build()] + shlex.split(line)[2:], 600, env_for({"DXL_CLI": checks.cli()} if prop == "C22" else None))
        log(out)
        return 2 if rc is None else abs(rc)
    c = Check(prop, tier)
    code = 0
    try:
        spec["run"](c)
        violations = 0
    except Violation as v:
        path = OUT / f"{prop}.{tier}.violation.txt"
        path.write_text(str(v))
        log(str(v)[:4000])
        log(f"VIOLATION property={prop} replay={path}")
        violations, code = 1, 1
        if not c.stages:
            c.stage("violation", {"evaluations": 0, "distinct_nontrivial": 0, "rule": "ended at the first violation", "samples": [str(v)[:600]]})
    except Inconclusive as e:
        log(f"NO VERDICT property={prop}: {e}")
        return 2
    c.evidence(spec["level"], violations)
    if code == 0:
        for line in (ROOT / "known-findings.txt").read_text().splitlines():
            if line.startswith(f"known: property={prop} "):
                log("KNOWN-FINDING: " + line[len("known: "):])
        log(f"{prop} {tier}: held ({time.time() - c.started:.1f} s)")
    return code


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.path.insert(0, str(ROOT))
    sys.exit(main())
