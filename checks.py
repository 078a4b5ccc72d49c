"""What each check runs (see DESIGN.md) and what MANIFEST.json says about it."""
import concurrent.futures
import difflib
import os
from run import SANITIZER_MARKS, ROOT, TARGET, OUT, REPO, SEED, HOST, Inconclusive, Violation, build, call, cargo, env_for, log

SECONDS = int(os.environ.get("VERIF_SECONDS", "240"))
CHECKS = {}


def check(prop, technique, level="exploration", note=""):
    def deco(f):
        CHECKS[prop] = {"run": f, "technique": technique, "level": level, "note": note}
        return f
    return deco


def simple(prop, rounds, technique, note, level="exploration", release=True):
    """One monitor, in the dev profile (all checks on) and, thoroughly, also optimised without checks."""
    def run(c):
        if c.thorough:
            c.monitor("dev", ["--rounds", rounds, "--seconds", SECONDS])
            if release:
                c.monitor("release", ["--rounds", rounds, "--seconds", SECONDS // 2], binary=build("release"))
        else:
            c.monitor("dev", ["--rounds", rounds])
    CHECKS[prop] = {"run": run, "technique": technique, "level": level, "note": note}


SIM = "Trusts the simulated port (virtual clock, scripted arrivals, complete event log), the independent protocol model in harness/src/proto.rs and the harness. "
EXPL = "Holds for the executions observed, not for all. "

simple("C01", 60, "trace monitor: every write decoded by an independent Protocol 2.0 decoder", EXPL + SIM)
simple("C02", 60, "trace monitor with reference stuffing; exhaustive short strings over {FF,FD,00,other}", EXPL + SIM)
simple("C03", 30, "trace monitor: transmitted packet against the prescribed packet", EXPL + SIM)
simple("C04", 60, "differential monitor: device decoding against a reference decoder", EXPL + SIM)
simple("C05", 20, "online stream monitor under random chunking, gaps, timeouts and noise", EXPL + SIM)
simple("C06", 60, "fault injection into frames with an online delivery monitor", EXPL + SIM)
simple("C07", 25, "hostile input stress with panic, hang and provenance monitors", EXPL + SIM)
simple("C08", 40, "result oracle over scripted replies", EXPL + SIM)
simple("C09", 60, "result oracle over every error byte", EXPL + SIM)
simple("C10", 30, "virtual time bus model judging every slot, drop monitor", EXPL + SIM)
simple("C11", 30, "virtual time bus model judging scans, termination monitor", EXPL + SIM)
simple("C12", 100, "result oracle for every acknowledged command, including broadcast and alerts", EXPL + SIM)
simple("C13", 60, "virtual time monitor of every deadline and port read", EXPL + SIM)
simple("C14", 20, "sweep of buffer sizes around every frame with an error and event monitor", EXPL + SIM)
simple("C15", 80, "provenance monitor: every simulated reply carries a unique tag", EXPL + SIM)
simple("C16", 100, "differential codec monitor and live object registry for array elements", EXPL + SIM)


MIRI = "-Zmiri-disable-isolation"
ASAN = {"ASAN_OPTIONS": "exitcode=66:detect_leaks=1", "LSAN_OPTIONS": "exitcode=66"}
# The workloads that run under AddressSanitizer.
WORKLOADS = ["C01", "C04", "C05", "C07", "C08", "C10", "C11", "C14", "C15", "C16", "C23", "C24", "C28"]


def miri_cmd():
    return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path", ROOT / "harness/Cargo.toml", "--target-dir", TARGET / "miri", "--"]


def miri_build():
    rc, text = call(miri_cmd() + ["nothing"], 600, env_for({"MIRIFLAGS": MIRI}))
    if "unknown property" not in text:
        raise Inconclusive(f"the monitors do not build for Miri ({rc}):\n{text[-5000:]}")


def parallel(jobs):
    """Run the jobs on all cores; the first failure wins, the others still finish."""
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        futures = [pool.submit(*j) for j in jobs]
    errors = [f.exception() for f in futures if f.exception()]
    for kind in (Violation, Exception):
        for e in errors:
            if isinstance(e, kind):
                raise e


def probes(c):
    """Programs that misuse the library with safe code only: the compiler rejects them, or Miri shows what they do."""
    base = ["--offline", "--manifest-path", ROOT / "probes/Cargo.toml"]
    names = sorted(p.stem for p in (ROOT / "probes/src/bin").glob("*.rs"))
    rc, text = call(["cargo", "+nightly", "build", "--keep-going", "--bins", "--target-dir", TARGET / "probes"] + base, 600)
    rejected = [n for n in names if f'could not compile `probes` (bin "{n}")' in text]
    accepted = [n for n in names if n not in rejected]
    if "control" not in accepted or "could not compile `dynamixel2`" in text or "could not compile `probes` (lib" in text:
        raise Inconclusive(f"the probe programs do not build:\n{text[-4000:]}")
    for n in accepted:
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--bin", n, "--target-dir", TARGET / "miri-probes"] + base
        rc, text = call(cmd, 300, env_for({"MIRIFLAGS": MIRI}))
        marks = [m for m in SANITIZER_MARKS if m in text]
        if marks or "PROBE: " in text:
            at = max(0, min(text.find(m) for m in marks + ["PROBE: "] if m in text) - 200)
            raise Violation(f"property: C17\nwhat: the safe program probes/src/bin/{n}.rs compiles and causes undefined behaviour or changes a borrowed result\n"
                            f"command: {' '.join(map(str, cmd))}\noutput:\n{text[at:at + 6000]}\n")
        if n == "control" and rc != 0:
            raise Inconclusive(f"the control probe failed ({rc}):\n{text[-4000:]}")
    log(f"[probes] {len(rejected)} rejected by the compiler, {len(accepted)} run under Miri")
    c.stage("probes", {"evaluations": len(names), "distinct_nontrivial": len(names), "rejected": len(rejected), "executed": len(accepted)})


@check("C17", "Miri (both aliasing models), AddressSanitizer and LeakSanitizer over the monitors' workloads; probe programs for borrow and thread safety",
       note=EXPL + "Miri and the sanitizers see only the executed paths; panics are allowed here.")
def c17(c):
    miri_build()
    jobs = []
    seeds = 16 if c.thorough else 8
    for k in range(seeds):
        env = {"MIRIFLAGS": MIRI + (" -Zmiri-tree-borrows" if k % 2 else "") + f" -Zmiri-seed={k}"}
        jobs.append((c.tool, "miri tree borrows" if k % 2 else "miri stacked borrows", "C17", ["--seed", SEED * 1000 + k, "--threads", 1], miri_cmd(), env))
    for k in range(24 if c.thorough else 4):
        env = {"MIRIFLAGS": MIRI + f" -Zmiri-seed={k}" + (" -Zmiri-preemption-rate=0.1" if k % 2 else "")}
        jobs.append((c.tool, "miri", "C18", ["--seed", SEED * 1000 + k, "--threads", 1], miri_cmd(), env))
    if c.thorough:
        for p in ["C24", "C11", "C15"]:
            jobs.insert(0, (c.tool, "miri", p, ["--seed", SEED, "--threads", 1, "--scale", 2000], miri_cmd(), {"MIRIFLAGS": MIRI}))
    probes(c)
    parallel(jobs)
    for profile in ["dev"] + (["release"] if c.thorough else []):
        asan = build(profile, env={"RUSTFLAGS": "-Zsanitizer=address"}, toolchain="nightly", target=HOST, suffix="-asan")
        long = ["--seconds", SECONDS // 30] if c.thorough else []
        c.tool(f"asan {profile}", "C17", ["--seed", SEED, "--rounds", 20] + long, [asan], ASAN)
        for p in WORKLOADS:
            c.tool(f"asan {profile}", p, ["--seed", SEED] + long, [asan], ASAN)


@check("C18", "racing threads in many processes with a hand-out monitor; thoroughly also Miri over many schedules", note=EXPL + "Races are provoked by a spin barrier on 8 cores; Miri additionally explores pseudo random schedules.")
def c18(c):
    c.monitor("dev", ["--threads", 1] + (["--seconds", SECONDS // 2] if c.thorough else []))
    if c.thorough:
        c.monitor("release", ["--threads", 1, "--seconds", SECONDS // 2], binary=build("release"))


simple("C19", 10, "differential monitor against a bitwise CRC; exhaustive single steps", EXPL + "All 65536 x 256 steps of the checksum are observed; composition over longer data is sampled.")


FEATURES = ["only20", "only20,alloc", "only20,std", "only20,serial2,rs4xx", "only20,liblog", "only20,full"]
LEVELS = ["off", "error", "warn", "info", "debug"]


def build20(features, profile):
    """The C20 monitor in one configuration; a library which no longer builds in it is a violation."""
    suffix = "-" + features.replace(",", "-")
    try:
        return build(profile, features=features, suffix=suffix)
    except Inconclusive as e:
        if "could not compile `dynamixel2`" not in str(e) or features == "only20,full":
            raise
        build()  # without this configuration's features, the tree must be sound
        raise Violation(f"property: C20\nwhat: the library does not compile with the features {features} (only20 is the monitor's own), though it does with all\n{e}\n")


@check("C20", "differential monitor: the same generated sessions in every feature set, profile, log level and buffer type and, under Miri, for another byte order and pointer width; transcripts compared by digest",
       note=EXPL + SIM + "Feature sets: none, alloc, std, serial2+rs4xx, log, std+serial2+log. Other platforms are interpreted by Miri: 32 bit big endian; thoroughly also 64 bit big endian and 32 bit little endian.")
def c20(c):
    rounds = 30 if c.thorough else 6
    configs = [(f, "dev") for f in FEATURES] + [(f, "release") for f in (FEATURES if c.thorough else [FEATURES[0], FEATURES[-1]])]
    parallel([(build20, f, p) for f, p in configs])
    # The full monitor: buffer types and log records too.
    for p in ("dev", "release"):
        c.monitor(f"all features, {p}", ["--rounds", rounds] + (["--seconds", SECONDS // 2] if c.thorough else []), binary=build20("only20,full", p))
    if c.thorough:
        c.monitor("no features, dev", ["--rounds", rounds], binary=build20("only20", "dev"))
    runs = [(f, p, "trace") for f, p in configs] + [("only20,full", "dev", l) for l in LEVELS] + [("only20,liblog", "dev", "off")]
    first = None
    for f, p, level in runs:
        args = ["--section", "probe", "--rounds", rounds]
        s = c.monitor(f"{f} {p} log={level}", args, binary=build20(f, p), env={"DXL_LOG": level})
        if first is None:
            first = (f, p, level, s)
        elif s["digest"] != first[3]["digest"] or s["evaluations"] != first[3]["evaluations"]:
            differ(c, rounds, first[:3], (f, p, level))
    c.explanation = f"{len(runs)} configurations of {len(configs)} builds gave the same digest {first[3]['digest']}"
    for target in PLATFORMS if c.thorough else PLATFORMS[:1]:
        if c.late():
            c.skipped(f"platform {target}")
            continue
        platform(c, target, 32 if c.thorough else 8)


# 32 bit big endian, 64 bit big endian, 32 bit little endian.
PLATFORMS = ["mips-unknown-linux-gnu", "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]
FAST_MIRI = MIRI + " ".join(["", "stacked-borrows", "validation", "alignment-check", "data-race-detector", "weak-memory-emulation"]).replace(" ", " -Zmiri-disable-") + " -Zmiri-ignore-leaks"


def platform(c, target, n):
    """The same sessions interpreted for another platform and run natively: the transcripts must be the same."""
    sysroot = TARGET / f"miri-sysroot-{target}"
    env = {"MIRI_SYSROOT": str(sysroot), "MIRIFLAGS": FAST_MIRI, "DXL_LOG": "off", "DXL_PLATFORM": "1"}
    rc, text = call(["cargo", "+nightly", "miri", "setup", "--target", target], 600, env_for(env))
    if rc != 0:
        raise Inconclusive(f"no Miri standard library for {target} ({rc}):\n{text[-4000:]}")
    miri = ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--manifest-path", ROOT / "harness/Cargo.toml", "--no-default-features",
            "--features", "only20", "--target", target, "--target-dir", TARGET / "miri-platform", "--"]
    rc, text = call(miri + ["nothing"], 600, env_for(env))
    if "unknown property" not in text:
        build20("only20", "dev")  # a violation if only this configuration is broken
        raise Inconclusive(f"the monitors do not build for {target} ({rc}):\n{text[-5000:]}")
    native = [build20("only20", "dev")]

    def one(k):
        args = ["C20", "--seed", str(SEED * 1000 + k), "--quick", "--rounds", "1", "--threads", "1", "--scale", "600"]
        dumps, evals = [], 0
        for cmd in (native, miri):
            dump, ev = c.scratch("dump"), c.scratch("json")
            rc, text = call(cmd + args + ["--dump", dump, "--evidence", ev], 700, env_for(env))
            if rc == 1 and "VIOLATION" in text:
                raise Violation(f"property: C20\nwhat: a monitor fails on {target}\ncommand: {' '.join(map(str, cmd + args))}\n{text[-6000:]}\n")
            # A panic while a panic unwinds, say.
            if cmd is miri and any(m in text for m in ("abnormal termination", "Undefined Behavior", "panic in a destructor")):
                at = max(0, min(text.find(m) for m in ("abnormal termination", "Undefined Behavior", "panic in a destructor", "panicked at") if m in text) - 300)
                raise Violation(f"property: C20\nwhat: the sessions run on this machine, but end the process on {target} (under Miri)\ncommand: {' '.join(map(str, cmd + args))}\n{text[at:at + 6000]}\n")
            if rc != 0:
                raise Inconclusive(f"{' '.join(map(str, cmd + args))}\nended with {rc}\n{text[-4000:]}")
            dumps.append(dict(l.rsplit(" ", 1) for l in dump.read_text().splitlines()))
            dump.unlink()
            ev.unlink()
        if not dumps[0] or dumps[0].keys() != dumps[1].keys():
            raise Inconclusive(f"the sessions on {target} are not those of the host")
        bad = [k for k in dumps[0] if dumps[0][k] != dumps[1][k]]
        if bad:
            section, rnd, case = bad[0].split()
            texts = []
            where = ["--section", section, "--round", rnd, "--case", case]
            for cmd in (native, miri):
                path = c.scratch("transcript")
                call(cmd + args + where, 300, env_for(dict(env, DXL_TRANSCRIPT=str(path))))
                texts.append(path.read_text().splitlines())
                path.unlink()
            diff = "\n".join(difflib.unified_diff(texts[0], texts[1], "x86_64", target, lineterm="", n=2))
            raise Violation(f"property: C20\nwhat: {len(bad)} of {len(dumps[0])} sessions give a different transcript on {target} (under Miri) and on this machine\n"
                            f"first: section {section}, round {rnd}, case {case}\n{diff}\n"
                            f"replay: DXL_PLATFORM=1 dxlmon {' '.join(map(str, args + where))}\n")
        return len(set(dumps[0].values())), len(dumps[0])

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        futures = [pool.submit(one, k) for k in range(n)]
    errors = [f.exception() for f in futures if f.exception()]
    for kind in (Violation, Exception):
        for e in errors:
            if isinstance(e, kind):
                raise e
    distinct, total = (sum(f.result()[i] for f in futures) for i in (0, 1))
    log(f"[platform {target}] {total} sessions gave the same transcripts as on this machine")
    c.stage(f"platform {target}", {"evaluations": total, "distinct_nontrivial": distinct, "processes": n})


def differ(c, rounds, a, b):
    """Find the first session with a different transcript."""
    dumps = []
    for f, p, level in (a, b):
        path = c.scratch("dump")
        call([build20(f, p), "C20", "--seed", SEED, "--thorough" if c.thorough else "--quick", "--section", "probe", "--rounds", rounds, "--dump", path], 600, env_for({"DXL_LOG": level}))
        dumps.append(dict(l.rsplit(" ", 1) for l in path.read_text().splitlines()))
        path.unlink()
    bad = sorted((tuple(map(int, k.split()[1:])) for k in dumps[0] if dumps[0][k] != dumps[1].get(k)))
    if not bad:
        raise Inconclusive("the digests of two configurations differ, but no session does")
    rnd, case = bad[0]
    texts = []
    for f, p, level in (a, b):
        path = c.scratch("transcript")
        cmd = [build20(f, p), "C20", "--seed", SEED, "--thorough" if c.thorough else "--quick", "--section", "probe", "--case", case, "--round", rnd]
        call(cmd, 60, env_for({"DXL_LOG": level, "DXL_TRANSCRIPT": str(path)}))
        texts.append(path.read_text().splitlines())
        path.unlink()
    diff = "\n".join(difflib.unified_diff(texts[0], texts[1], "/".join(a), "/".join(b), lineterm="", n=2))
    raise Violation(f"property: C20\nwhat: {len(bad)} sessions give a different transcript in the configurations {a} and {b}\n"
                    f"first: section probe, round {rnd}, case {case}\n{diff}\n"
                    f"replay: dxlmon C20 --seed {SEED} {'--thorough' if c.thorough else '--quick'} --section probe --case {case} --round {rnd}\n")


@check("C21", "real time monitor on pseudo terminals: deadlines, signals, line settings by ioctl, discard, transfers, end to end exchanges",
       note=EXPL + "Linux pseudo terminals stand in for serial hardware. Lateness counts only if repeated in 25 attempts, earliness at once.")
def c21(c):
    c.monitor("dev", ["--rounds", 5] + (["--seconds", SECONDS] if c.thorough else []))
    if c.thorough:
        c.monitor("release", ["--seconds", SECONDS // 2], binary=build("release"))


def cli(profile="dev"):
    """Build the command line tool."""
    cargo(["build", "--offline", "--quiet", "--manifest-path", REPO / "Cargo.toml", "-p", "dynamixel2-cli", "--target-dir", TARGET / "cli"] + (["--release"] if profile == "release" else []))
    return str(TARGET / "cli" / ("release" if profile == "release" else "debug") / "dynamixel2")


@check("C22", "process level monitor: transmitted bytes, line settings, output and exit status of the tool against a scripted motor on a pseudo terminal",
       note=EXPL + "A success that needs a timely reply counts as failed only if it fails in 12 attempts; the output is searched for the values, not compared literally.")
def c22(c):
    c.monitor("dev", ["--rounds", 5] + (["--seconds", SECONDS] if c.thorough else []), env={"DXL_CLI": cli()})
    if c.thorough:
        c.monitor("release tool", ["--seconds", SECONDS // 2], env={"DXL_CLI": cli("release")})


simple("C23", 100, "fault injection at every port call with an event order monitor", EXPL + SIM + "A failure is injected at every port call index of every generated operation.", level="fault_enumeration")
simple("C24", 60, "ideal register file as an online model over random histories on a bus of real devices", EXPL + SIM)
simple("C25", 80, "oracle over every error type, conversion and textual form", EXPL + "Distinct error kinds and all conversions are enumerated, field values are sampled.")
simple("C26", 250, "monitor of every port call around creating, inspecting, using, dropping and taking apart clients and devices", EXPL + SIM)
simple("C28", 60, "fault injection into code of the caller (encoders, value types, conversions, iterators, ports) with call, error and panic monitors", EXPL + SIM + "Errors and panics are injected at every call index of the caller's code; ports panic once per operation.")


@check("C27", "differential monitor: transcripts of sessions alone in a fresh process against the same sessions nested, in turns, in lock step, concurrent and moved between threads; Miri's race detector",
       note=EXPL + SIM + "Schedules are sampled. Encoders and port calls are where others run inside of a session, and Miri sees few sessions.")
def c27(c):
    c.monitor("dev", ["--rounds", 20] + (["--seconds", SECONDS] if c.thorough else []))
    if c.thorough:
        c.monitor("release", ["--seconds", SECONDS // 2], binary=build("release"))
    miri_build()
    jobs = []
    for k in range(32 if c.thorough else 4):
        env = {"MIRIFLAGS": MIRI + f" -Zmiri-seed={k} -Zmiri-preemption-rate=0.0{1 + k % 5}"}
        jobs.append((c.tool, "miri", "C27", ["--section", "concurrent", "--seed", SEED * 1000 + k, "--threads", 1], miri_cmd(), env))
    parallel(jobs)
