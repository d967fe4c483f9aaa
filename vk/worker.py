"""Worker process: executes its share of the cases of one property."""
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback
import warnings

from vk.core import Ctx, SkipCase, Violation, plain, results


def main():
    spec = json.loads(sys.argv[1])
    warnings.simplefilter("ignore")
    ctx = Ctx(spec["property"], spec["tier"], spec["seed"], spec["journal"])
    ctx.worker = spec["worker"]
    ctx.work_dir = spec["work_dir"]
    ctx.variant = spec["variant"]
    module = importlib.import_module("vk.checks." + spec["property"].lower())
    families = [f for f in module.REG.families if f.variant == spec["variant"]]
    if spec.get("only"):
        families = [f for f in families if f.name == spec["only"][0]]
    start = time.monotonic()
    deadline = start + spec["budget"]
    violations = []
    missed = []
    failed = {}

    def _run(family, index):
        if failed.get(family.name, 0) >= 2:
            return
        rng = ctx.begin(family.name, index)
        try:
            if family.once:
                family.func(ctx, rng, index)
            else:
                family.func(ctx, rng)
        except SkipCase:
            ctx.count("skipped." + family.name)
            return
        except Violation as exc:
            violations.append({
                "family": family.name, "index": index, "message": exc.message,
                "finding": exc.finding, "data": plain(exc.data),
            })
            if exc.finding is None:
                failed[family.name] = failed.get(family.name, 0) + 1
        except MemoryError:
            raise
        except Exception as exc:
            # distinguish a failure of the harness from a failure of the code
            violations.append({
                "family": family.name, "index": index, "finding": None,
                "message": f"unexpected {type(exc).__name__}: {exc}",
                "traceback": traceback.format_exc()[-3000:],
                "data": plain(ctx.notes),
                "harness": not _from_tested(exc),
            })
            failed[family.name] = failed.get(family.name, 0) + 1
        ctx.end()

    if spec.get("only"):
        for family in families:
            _run(family, spec["only"][1])
    else:
        queues = []
        for family in families:
            num = getattr(family, spec["tier"])
            items = list(range(spec["worker"], num, spec["workers"]))
            queues.append([family, items, 0])
        # the enumerated families are always finished, the others get a fair share
        active = [q for q in queues if q[1]]
        while active:
            late = time.monotonic() > deadline
            nxt = []
            for queue in active:
                family, items, pos = queue
                stop = len(items) if family.once else pos + max(
                    1, (len(items) * family.weight + 24) // 25)
                while pos < min(stop, len(items)):
                    if late and pos > 0 and not family.once:
                        break
                    _run(family, items[pos])
                    pos += 1
                    late = time.monotonic() > deadline
                queue[2] = pos
                if pos < len(items):
                    if late and not family.once:
                        missed.append([family.name, len(items) - pos])
                    else:
                        nxt.append(queue)
            active = nxt
    final = getattr(module, "finalize", None)
    extra = final(ctx) if final else None
    out = results(ctx)
    out.update({"violations": violations, "missed": missed, "extra": plain(extra)})
    tmp = spec["output"] + ".tmp"
    with open(tmp, "w") as fout:
        json.dump(out, fout)
    os.rename(tmp, spec["output"])


def describe(prop):
    """ Print the registry of the property (the parent never imports the tested code). """
    warnings.simplefilter("ignore")
    reg = importlib.import_module("vk.checks." + prop.lower()).REG
    print("REGISTRY " + json.dumps({
        "rule": reg.rule, "assumptions": reg.assumptions, "level": reg.level,
        "workers": reg.workers, "env": reg.env, "budget": list(reg.budget),
        "families": [{"name": f.name, "variant": f.variant} for f in reg.families],
    }))


def _from_tested(exc):
    """ True if the exception passed through the tested code. """
    target = os.path.realpath(os.environ.get("VK_TARGET", "/nonexistent"))
    frame = exc.__traceback__
    last = None
    inside = False
    while frame is not None:
        last = frame.tb_frame.f_code.co_filename
        if os.path.realpath(last).startswith(target):
            inside = True
        frame = frame.tb_next
    # compiled functions leave no frame: exceptions raised by the calls made
    # directly by the harness count as raised by the tested code
    return inside or last is not None


if __name__ == "__main__":
    faulthandler.enable()
    if sys.argv[1] == "--describe":
        describe(sys.argv[2])
    else:
        main()
