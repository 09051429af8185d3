#!/usr/bin/env python3
"""Decide one property: model-check its specification, run the real code, validate the recorded behaviour.

usage: check.py ID [quick|thorough]
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tarfile, threading, time
from pathlib import Path

HERE = Path(__file__).resolve().parent
SPEC = HERE / "spec"
WORK = HERE / "work"
TARGET = HERE / ".build" / "target"
sys.path.insert(0, str(HERE))
from jobs import PROPS  # noqa: E402

DEADLINE = {"quick": 840, "thorough": 6 * 3600}


class ToolError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=None, log=None):
    e = dict(os.environ)
    e.update({k: v for k, v in (env or {}).items() if v is not None})
    for k in [k for k, v in (env or {}).items() if v is None]:
        e.pop(k, None)
    e["RUST_BACKTRACE"] = "0"
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError(f"timeout: {' '.join(map(str, cmd))}")
    return rc


def build_harness(work):
    rc = sh(["cargo", "build", "--offline", "--quiet"], HERE / "harness",
            {"CARGO_TARGET_DIR": str(TARGET)}, 800, work / "cargo.log")
    if rc != 0:
        raise ToolError("harness does not build: " + (work / "cargo.log").read_text()[-3000:])
    return TARGET / "debug" / "lhx"


# crates that contain a dictionary: archive of its source, directory in the archive
CONTAINED = {"ipadic": "mecab-ipadic-2.7.0-20070801", "ipadic-neologd": "mecab-ipadic-neologd-0.0.7-20200820",
             "unidic": "unidic-mecab-2.1.2", "ko-dic": "mecab-ko-dic-2.1.1-20180720", "cc-cedict": "CC-CEDICT-MeCab-0.1.0-20200409"}
CLI_ENV = {"CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_INCREMENTAL": "0"}


PART = ["ipadic-neologd", "ko-dic"]
ALL = "ipadic,ipadic-neologd,unidic,ko-dic,cc-cedict"
PROGRAMS = {"embed": ("harness", "embed"), "embedz": ("harness", "embed,compress"), "part": ("harness", "part"),
            "cli": ("cli", ALL + ",filter"), "cliz": ("cli", ALL + ",filter,compress")}


class BuildScriptFailed(Exception):
    pass


def build_embedded(work, what, features, target, srcs):
    """Build the harness or the command line tool with dictionaries made from `srcs` contained in it.

    The build scripts take the source from an archive in their output directory if there is one; the first build, with
    the project's own DOCS_RS switch, is there to find out those directories."""
    if what == "cli":
        cmd = ["cargo", "build", "--offline", "--manifest-path", "/repo/lindera-cli/Cargo.toml", "--features", features]
    else:
        cmd = ["cargo", "build", "--offline", "--features", features]
    env = {"CARGO_TARGET_DIR": str(target), "DOCS_RS": "1"}
    if what == "cli":
        env.update(CLI_ENV)

    kinds = PART if features == "part" else list(CONTAINED)

    def outs():
        d = {k: [] for k in kinds}
        for k in kinds:
            for o in target.glob(f"debug/build/lindera-{k}-*/out"):
                if re.fullmatch(rf"lindera-{k}-[0-9a-f]{{16}}", o.parent.name):
                    d[k].append(o)
        return d

    def clean(archives):
        for k, os_ in outs().items():
            for o in os_:
                for x in o.iterdir():
                    if x.is_dir():
                        shutil.rmtree(x)
                    else:
                        x.unlink()
                if archives:
                    with tarfile.open(o / (CONTAINED[k] + ".tar.gz"), "w:gz") as t:
                        t.add(srcs / k / "src", arcname=CONTAINED[k])
            for f in target.glob(f"debug/.fingerprint/lindera-{k}-*/*run-build-script*"):
                f.unlink()

    log = work / f"cargo-{target.name}.log"
    if not all(outs().values()):
        clean(False)
        if sh(cmd, HERE / "harness", env, 800, log) != 0:
            raise ToolError(f"{what} with contained dictionaries does not build: " + log.read_text()[-3000:])
    clean(True)
    env["DOCS_RS"] = None
    if sh(cmd, HERE / "harness", env, 800, log) != 0:
        t = log.read_text()
        if re.search(r"failed to run custom build command for `lindera-", t):
            raise BuildScriptFailed(t[-3000:])
        raise ToolError(f"{what} with contained dictionaries does not build: " + t[-3000:])
    return target / "debug" / ("lindera" if what == "cli" else "lhx")


def make_cfg(module, consts, dest):
    txt = (SPEC / f"{module}.cfg").read_text()
    for k, v in (consts or {}).items():
        txt, n = re.subn(rf"(?m)^(\s*{k}\s*=\s*).*$", lambda m: m.group(1) + str(v), txt)
        if n != 1:
            raise ToolError(f"{module}.cfg has no constant {k}")
    dest.write_text(txt)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, 0 states left")
FAIL = re.compile(r'<<"FAIL", "([A-Z0-9]+)", (\d+)')
INFO = re.compile(r'<<"INFO", "([A-Za-z0-9_]+)", (\d+)>>')


def run_tlc(module, consts, env, work, tag, workers=4, heap="3g", timeout=800, cont=False, max_fail=60):
    """-> dict(generated, distinct, fails, status) ; status: ok | fail | eval | deadlock"""
    work.mkdir(parents=True, exist_ok=True)
    cfg = work / f"{tag}.cfg"
    make_cfg(module, consts, cfg)
    meta = work / f"{tag}.meta"
    cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", str(meta), "-config", str(cfg)]
    if cont:
        cmd.append("-continue")
    cmd.append(f"{module}.tla")
    e = dict(os.environ)
    e.update(env)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m"
    log = work / f"{tag}.log"
    fails, gen, dist, lines, early = [], None, None, [], False
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, errors="replace")
    killed = []
    timer = threading.Timer(timeout, lambda: (killed.append(1), os.killpg(p.pid, signal.SIGKILL)))
    timer.start()
    try:
        with open(log, "w") as f:
            size = 0
            for line in p.stdout:
                m = FAIL.search(line)
                if m:
                    fails.append(int(m.group(2)))
                m2 = STATS.search(line)
                if m2:
                    gen, dist = int(m2.group(1)), int(m2.group(2))
                if size < 3_000_000:
                    f.write(line)
                    size += len(line)
                lines.append(line)
                if len(lines) > 400:
                    lines = lines[-200:]
                if len(set(fails)) >= max_fail:
                    early = True
                    os.killpg(p.pid, signal.SIGKILL)
                    break
        rc = p.wait()
    finally:
        timer.cancel()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        shutil.rmtree(meta, ignore_errors=True)
    if killed:
        raise ToolError(f"TLC ran out of time on {module} ({tag})")
    fails = sorted(set(fails))
    tail = "".join(lines[-60:])
    r = dict(generated=gen or 0, distinct=dist or 0, fails=fails, rc=rc, log=str(log), tail=tail)
    if early or fails:
        r["status"] = "fail"
    elif rc == 0 and gen is not None:
        r["status"] = "ok"
    elif rc in (75, 76, 77):
        r["status"] = "eval"
    elif rc == 11:
        r["status"] = "deadlock"
    else:
        r["status"] = "error"
    return r


def known_findings(prop):
    f = HERE / "known_findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = WORK / f"{pid}-{tier}"
        shutil.rmtree(self.work, ignore_errors=True)
        self.work.mkdir(parents=True)
        self.rep = HERE / "work" / "replay"
        self.rep.mkdir(parents=True, exist_ok=True)
        self.violations, self.known = [], []
        self.states = self.trans = self.traces = 0
        self.samples, self.modules, self.notes = [], [], {}
        self.lock = threading.Lock()

    def violation(self, name, data):
        path = self.rep / f"{self.pid}-{name}.json"
        path.write_text(json.dumps(data, ensure_ascii=False, indent=1)[:400000])
        with self.lock:
            self.violations.append(str(path))

    def mc(self, j):
        d = self.work / j["name"]
        d.mkdir(parents=True, exist_ok=True)
        out = None
        for n, m in enumerate(j.get("mc", [])):
            consts = dict(m.get("consts", {}))
            consts.update(m.get(self.tier, {}))
            env = {}
            if m.get("export"):
                out = d / "scenarios.ndjson"
                env["EXPORT"] = str(out)
            r = run_tlc(m["module"], consts, env, d, f"mc{n}-{m['module']}", workers=m.get("workers", 6), heap="6g",
                        timeout=780 if self.tier == "quick" else 4 * 3600)
            if r["status"] != "ok":
                raise ToolError(f"model checking {m['module']} ended with {r['status']} rc={r['rc']}:\n{r['tail']}")
            with self.lock:
                self.states += r["distinct"]
                self.trans += r["generated"]
                self.modules.append({"module": m["module"], "role": "model checked", "consts": consts,
                                     "distinct_states": r["distinct"], "states_generated": r["generated"]})
        return out

    def panicked(self, out, name, cmd):
        """A step outside the recorded ones (a valid dictionary is built, a baseline is taken) that every behaviour of the
        specification starts with did not succeed: the code does not get as far as the specification's first state."""
        p = out / "panic.txt"
        what = p.read_text() if p.exists() else ""
        if not what or re.search(r"StorageFull|No space|Too many open files|OutOfMemory|Cannot allocate|WouldBlock|the tool starts", what):
            return False
        self.violation(name + "-setup", {"property": self.pid, "what": "a step every behaviour starts with failed: " + what, "cmd": cmd})
        return True

    def job(self, j, scn, exe):
        d = self.work / j["name"]
        tr = d / "trace"
        args = list(j.get("args", [])) + list(j.get(self.tier, []))
        if j.get("embed"):
            exe = self.embedded.get(j["embed"])
            if exe is None:
                return
        cmd = [str(exe), j["dom"], "--out", str(tr), "--seed", str(self.seed)] + [str(a) for a in args]
        if scn:
            cmd += ["--scn", str(scn)]
        env = {}
        if j.get("cli"):
            if self.embedded.get(j["cli"]) is None:
                return
            env["LINDERA_CLI"] = str(self.embedded[j["cli"]])
        if j.get("embed") or j.get("cli"):
            cmd += ["--srcs", str(self.srcs)]
        rc = sh(cmd, HERE, env, 800 if self.tier == "quick" else 3 * 3600, d / "harness.log") if d.mkdir(parents=True, exist_ok=True) is None else 0
        shutil.rmtree(tr / "scratch", ignore_errors=True)
        if rc == 3 or rc < 0:
            h = tr / "hang.txt"
            self.violation(j["name"] + "-hang", {
                "property": self.pid, "what": "the operation did not return" if rc == 3 else f"the process died with signal {-rc}",
                "operation": h.read_text() if h.exists() else "", "cmd": cmd})
            return
        if rc == 101 and self.panicked(tr, j["name"], cmd):
            return
        if rc != 0:
            raise ToolError(f"harness failed rc={rc}: {(d/'harness.log').read_text()[-3000:]}")
        if self.srcs and (self.srcs / "ref.ndjson").exists():
            shutil.copy(self.srcs / "ref.ndjson", tr / "ref.ndjson")
        cases_f = tr / j.get("cases", "cases.ndjson")
        n = sum(1 for _ in open(cases_f))
        if n == 0:
            raise ToolError(f"{j['name']}: no cases recorded")
        consts = {"PROP": f'"{self.pid}"'}
        consts.update(j.get("tconsts", {}))
        kn = known_findings(self.pid)
        r = run_tlc(j["trace"], consts, {"TRACE_DIR": str(tr)}, d, f"trace-{j['trace']}", workers=j.get("workers", 4), heap="6g",
                    timeout=800 if self.tier == "quick" else 4 * 3600, cont=True, max_fail=10 ** 9 if kn else 40)
        with self.lock:
            self.states += r["distinct"]
            self.trans += r["generated"]
            self.traces += n
            self.modules.append({"module": j["trace"], "role": "trace validation", "cases": n, "domain": j["dom"],
                                 "distinct_states": r["distinct"], "states_generated": r["generated"]})
        need = set(r["fails"])
        picks = {1, n // 2, n}
        rows = {}
        with open(cases_f) as f:
            for i, line in enumerate(f, 1):
                if i in need or i in picks:
                    rows[i] = line
        with self.lock:
            for i in sorted(picks):
                if i in rows and len(rows[i]) < 6000:
                    self.samples.append({"job": j["name"], "case": json.loads(rows[i])})
        if r["status"] == "ok":
            return
        if r["status"] == "error":
            raise ToolError(f"trace validation {j['trace']} ended rc={r['rc']}:\n{r['tail']}")
        if r["status"] in ("eval", "deadlock"):
            self.violation(j["name"] + "-illtyped", {
                "property": self.pid, "what": "the recorded behaviour is outside the specification's domain: TLC " + r["status"],
                "tlc": r["tail"], "cmd": cmd})
            return
        shown = 0
        for i in r["fails"]:
            case = json.loads(rows[i])
            hit = [k for k in kn if k[0] == str(case.get("key"))]
            if hit:
                with self.lock:
                    self.known.append(hit[0])
                continue
            if shown < 5:
                data = {"property": self.pid, "job": j["name"], "case_number": i, "case": case, "cmd": cmd}
                if (tr / "worlds.ndjson").exists() and isinstance(case.get("w"), int):
                    with open(tr / "worlds.ndjson") as f:
                        for q, line in enumerate(f, 1):
                            if q == case["w"]:
                                data["world"] = json.loads(line)
                data["log"] = r["tail"][-3000:]
                self.violation(f"{j['name']}-{i}", data)
            shown += 1

    def contained(self, jobs, fb):
        """Sources of dictionaries, and the programs that contain them."""
        need = sorted({j[x] for j in jobs for x in ("embed", "cli") if j.get(x)})
        self.srcs, self.embedded = None, {}
        if not need:
            return
        exe = fb.result()
        self.srcs = self.work / "srcs"
        rc = sh([str(exe), "sources", "--out", str(self.srcs), "--seed", str(self.seed)], HERE, {}, 300, self.work / "sources.log")
        if rc == 101 and self.panicked(self.srcs, "sources", ["sources"]):
            return
        if rc != 0:
            raise ToolError("no sources: " + (self.work / "sources.log").read_text()[-2000:])

        def one(name):
            what, features = PROGRAMS[name]
            try:
                return build_embedded(self.work, what, features, HERE / ".build" / name, self.srcs)
            except BuildScriptFailed as e:
                self.violation(f"{name}-build", {"property": self.pid, "what": "a dictionary cannot be built into the program from a valid source",
                                                 "sources": str(self.srcs), "log": str(e)})
                return None
        with cf.ThreadPoolExecutor(4) as ex:
            self.embedded = dict(zip(need, ex.map(one, need)))

    def run(self):
        t0 = time.time()
        spec = PROPS[self.pid]
        jobs = [j for j in spec["jobs"] if self.tier in j.get("tiers", ("quick", "thorough"))]
        with cf.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(build_harness, self.work)
            fe = ex.submit(self.contained, jobs, fb)
            scns = list(ex.map(self.mc, jobs))
            exe = fb.result()
            fe.result()
            fs = [ex.submit(self.job, j, s, exe) for j, s in zip(jobs, scns)]
            errs = []
            for f in fs:
                try:
                    f.result()
                except ToolError as e:
                    errs.append(e)
        if errs and not self.violations:
            raise errs[0]
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6], "modules": self.modules}
        if spec.get("exhaustive_note"):
            cov["bounds"] = spec["exhaustive_note"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(self.violations)}
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, ensure_ascii=False, indent=1))
        for k in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.pid} {k[1]}")
        for v in self.violations:
            print(f"VIOLATION property={self.pid} replay={v}")
        if not self.violations and os.environ.get("KEEP") is None:
            shutil.rmtree(self.work, ignore_errors=True)
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.trans} traces={self.traces} "
              f"violations={len(self.violations)} {ev['wall_s']}s")
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        sys.exit(Check(pid, tier, seed).run())
    except ToolError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        sys.exit(2)


if __name__ == "__main__":
    main()
