"""Parent process: builds the tree, runs the workers, gives the verdict."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from types import SimpleNamespace

from vk import build as vbuild

VERIF = vbuild.VERIF
PYTHON = sys.executable
CASE_CPU_LIMIT = 150.0   # CPU seconds a single case may take
HARD_LIMIT = {"quick": 600, "thorough": 860}


def load_findings(prop):
    """ Listed known findings of the property. """
    path = os.path.join(VERIF, "known_findings.jsonl")
    items = []
    if os.path.exists(path):
        with open(path) as fin:
            for line in fin:
                line = line.strip()
                if line:
                    item = json.loads(line)
                    if item.get("property") == prop and item.get("status") == "known":
                        items.append(item)
    return items


def cpu_time(pid):
    """ CPU time of the process """
    try:
        with open(f"/proc/{pid}/stat") as fin:
            fields = fin.read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return None


class Worker:
    """ worker process handle """

    def __init__(self, prop, tier, seed, variant, target, idx, count, budget, work_dir,
                 env_extra, only=None):
        self.variant = variant
        self.idx = idx
        base = os.path.join(work_dir, f"{variant}-{idx}")
        self.journal = base + ".cur"
        self.output = base + ".json"
        self.stderr = base + ".err"
        open(self.journal, "w").close()
        own_dir = base + ".dir"
        os.makedirs(own_dir)
        spec = {
            "property": prop, "tier": tier, "seed": seed, "variant": variant,
            "worker": idx, "workers": count, "budget": budget,
            "journal": self.journal, "output": self.output, "work_dir": own_dir,
            "only": only,
        }
        env = vbuild.run_env(variant, target)
        env["TMPDIR"] = own_dir
        # SpacePy writes its configuration when it is imported for the first time
        env["SPACEPY"] = os.path.join(own_dir, "spacepy")
        os.makedirs(env["SPACEPY"])
        if variant == "asan":
            env["UBSAN_OPTIONS"] += f":log_path={base}.ubsan"
        env.update(env_extra)
        self.base = base
        with open(self.stderr, "wb") as err:
            self.proc = subprocess.Popen(
                [PYTHON, "-m", "vk.worker", json.dumps(spec)], cwd=own_dir, env=env,
                stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True,
            )
        self.last_case = None
        self.last_cpu = 0.0
        self.hang = None

    def current(self):
        """ current case """
        try:
            with open(self.journal) as fin:
                return json.loads(fin.read().strip() or "null")
        except (OSError, ValueError):
            return None

    def watch(self):
        """ bounded progress monitor """
        cpu = cpu_time(self.proc.pid)
        if cpu is None:
            return
        cur = self.current()
        if cur != self.last_case:
            self.last_case, self.last_cpu = cur, cpu
        elif cur is not None and cpu - self.last_cpu > CASE_CPU_LIMIT:
            self.hang = cur
            self.kill()

    def kill(self):
        """ stop worker """
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def tail(self, size=6000):
        """ tail of the error output """
        with open(self.stderr, "rb") as fin:
            return fin.read()[-size:].decode(errors="replace")


def main():
    prop = sys.argv[1]
    only = None
    if len(sys.argv) > 2 and sys.argv[2].startswith("--only="):
        name, _, num = sys.argv[2][7:].partition(":")
        only = [name, int(num or 0)]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    started = time.monotonic()
    work_dir = tempfile.mkdtemp(prefix=f"vk-{prop}-")
    try:
        return _main(prop, tier, seed, only, started, work_dir)
    finally:
        shutil.rmtree(work_dir, ignore_errors=True)


def load_registry(prop, work_dir):
    """ Registry of the workload families. """
    env = vbuild.run_env("plain", vbuild.build("plain"))
    env["SPACEPY"] = os.path.join(work_dir, "spacepy")
    os.makedirs(env["SPACEPY"])
    res = subprocess.run(
        [PYTHON, "-m", "vk.worker", "--describe", prop], cwd=work_dir, env=env,
        stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300, check=False,
    )
    for line in res.stdout.splitlines():
        if line.startswith("REGISTRY "):
            reg = json.loads(line[9:], object_hook=lambda d: d)
            reg["families"] = [SimpleNamespace(**f) for f in reg["families"]]
            return SimpleNamespace(**reg)
    raise vbuild.BuildError("the check could not be loaded: " + res.stderr[-3000:])


def _main(prop, tier, seed, only, started, work_dir):
    try:
        reg = load_registry(prop, work_dir)
    except vbuild.BuildError as exc:
        print(f"INCONCLUSIVE: build failed\n{exc}")
        return 2
    findings = {f["key"]: f for f in load_findings(prop)}
    variants = sorted({f.variant for f in reg.families if not only or f.name == only[0]})
    violations = []
    merged = {"counters": {}, "max_err": {}, "keys": set(), "cases": 0, "samples": [], "missed": {}}
    extras = []
    problems = []
    for variant in variants:
        try:
            target = vbuild.build(variant)
        except vbuild.BuildError as exc:
            print(f"INCONCLUSIVE: build of {variant} failed\n{exc}")
            return 2
        budget = reg.budget[0 if tier == "quick" else 1] / len(variants)
        count = 1 if only else reg.workers
        env_extra = dict(reg.env)
        workers = [
            Worker(prop, tier, seed, variant, target, i, count, budget, work_dir, env_extra, only)
            for i in range(count)
        ]
        hard = started + HARD_LIMIT[tier]
        pending = list(workers)
        while pending:
            time.sleep(0.1)
            for worker in list(pending):
                if worker.proc.poll() is not None:
                    pending.remove(worker)
                    continue
                worker.watch()
            if time.monotonic() > hard:
                for worker in pending:
                    worker.kill()
                    problems.append(f"worker {worker.idx} exceeded the wall clock watchdog at {worker.current()}")
                pending = []
        for worker in workers:
            _collect(worker, merged, violations, extras, problems)
    status = _verdict(prop, tier, seed, reg, merged, violations, extras, problems, findings, started)
    return status


def _collect(worker, merged, violations, extras, problems):
    if os.path.exists(worker.output):
        with open(worker.output) as fin:
            out = json.load(fin)
        for key, val in out["counters"].items():
            merged["counters"][key] = merged["counters"].get(key, 0) + val
        for key, val in out["max_err"].items():
            merged["max_err"][key] = max(merged["max_err"].get(key, 0.0), val)
        merged["keys"].update(out["keys"])
        merged["cases"] += out["cases"]
        for item in out["samples"]:
            if not any(s["family"] == item["family"] for s in merged["samples"]):
                merged["samples"].append(item)
        violations.extend(out["violations"])
        for name, num in out["missed"]:
            merged["missed"][name] = merged["missed"].get(name, 0) + num
        if out.get("extra") is not None:
            extras.append(out["extra"])
        if worker.proc.returncode:
            # results complete, but the interpreter failed while shutting down
            violations.append({
                "family": "shutdown", "index": worker.idx, "finding": None,
                "message": f"process failed at exit with status {worker.proc.returncode}",
                "data": {"stderr": worker.tail()},
            })
    elif worker.hang is not None:
        violations.append({
            "family": worker.hang[0], "index": worker.hang[1], "finding": None,
            "message": f"no result after {CASE_CPU_LIMIT:g} s of CPU time",
            "data": {"call": worker.hang[2]},
        })
    elif any("exceeded" in p and f"worker {worker.idx} " in p for p in problems):
        pass
    else:
        code = worker.proc.returncode
        tail = worker.tail()
        cur = worker.current()
        if cur is None or "MemoryError" in tail.rsplit("\n", 3)[-2:][0] or code == -9:
            problems.append(f"worker {worker.idx} ended with status {code} at {cur}: {tail[-1500:]}")
        elif code == 1 and "Traceback (most recent call last)" in tail:
            problems.append(f"worker {worker.idx} failed at {cur}: {tail[-3000:]}")
        else:
            violations.append({
                "family": cur[0], "index": cur[1], "finding": None,
                "message": (f"the process was killed by signal {-code}" if code < 0 else
                            f"the process was terminated with exit status {code}"),
                "data": {"call": cur[2], "stderr": tail},
            })
    if worker.variant == "asan":
        _ubsan(worker, violations)


def _ubsan(worker, violations):
    folder = os.path.dirname(worker.base)
    for name in sorted(os.listdir(folder)):
        if name.startswith(os.path.basename(worker.base) + ".ubsan"):
            with open(os.path.join(folder, name), errors="replace") as fin:
                text = fin.read()
            seen = set()
            lines = text.split("\n")
            for i, line in enumerate(lines):
                if "runtime error:" in line:
                    key = line.split(":")[0].rsplit("/", 1)[-1] + ":" + line.split("runtime error:")[1][:40]
                    if key not in seen:
                        seen.add(key)
                        violations.append({
                            "family": "ubsan", "index": worker.idx, "finding": None,
                            "message": "undefined behaviour: " + line,
                            "data": {"stack": lines[i:i + 12]},
                        })


def _verdict(prop, tier, seed, reg, merged, violations, extras, problems, findings, started):
    known, new = {}, []
    for item in violations:
        if item.get("finding") and item["finding"] in findings:
            known.setdefault(item["finding"], []).append(item)
        else:
            new.append(item)
    wall = time.monotonic() - started
    counters = merged["counters"]
    reached = {f.name: counters.get("cases." + f.name, 0) for f in reg.families}
    coverage = {
        "evaluations": merged["cases"],
        "distinct_nontrivial": len(merged["keys"]),
        "rule": reg.rule,
        "samples": merged["samples"][:40],
        "values_compared": counters.get("values_compared", 0),
        "monitor_evaluations": {
            k[8:]: v for k, v in sorted(counters.items()) if k.startswith("monitor.")
        },
        "cases_per_family": reached,
        "observed": {
            k: v for k, v in sorted(counters.items())
            if not k.startswith(("monitor.", "cases.")) and k != "values_compared"
        },
        "worst_error_over_tolerance": {k: round(v, 6) for k, v in sorted(merged["max_err"].items())},
        "unfinished_cases": merged["missed"],
    }
    if extras:
        coverage["extra"] = extras[:8]
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed, "level": reg.level, "coverage": coverage,
        "assumptions": reg.assumptions, "wall_s": round(wall, 2), "violations": len(new),
    }
    if known or findings:
        coverage["known_findings"] = {k: len(known.get(k, ())) for k in findings}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as out:
        json.dump(evidence, out, indent=1)
    for key, item in findings.items():
        print(f"KNOWN-FINDING: property={prop} {item['what']} (seen {len(known.get(key, ()))}x)")
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = {}
        for item in new:
            if shown.get(item["family"], 0) >= 2:
                continue
            num = shown[item["family"]] = shown.get(item["family"], 0) + 1
            path = os.path.join(VERIF, "replays", f"{prop}-{item['family']}-{num}.json")
            with open(path, "w") as out:
                json.dump({
                    "property": prop, "seed": seed, "tier": tier,
                    "replay_cmd": (
                        f"VERIF_SEED={seed} bash run.sh {prop} {tier} "
                        f"--only={item['family']}:{item['index']}"
                    ), **item,
                }, out, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {item['family']}[{item['index']}]: {item['message'][:600]}")
        return 1
    if problems:
        print("INCONCLUSIVE: " + "\n".join(problems))
        return 2
    never = [f for f, num in reached.items() if num == 0]
    if never and not os.environ.get("VK_ONLY") and len(sys.argv) < 3:
        print(f"INCONCLUSIVE: families never exercised: {never}")
        return 2
    if not merged["keys"]:
        print("INCONCLUSIVE: no non-trivial case observed")
        return 2
    print(
        f"OK property={prop} tier={tier} seed={seed}: {merged['cases']} cases, "
        f"{len(merged['keys'])} distinct non-trivial, "
        f"{counters.get('values_compared', 0)} values compared, {wall:.1f} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
