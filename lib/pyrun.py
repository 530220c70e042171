#!/usr/bin/env python3
"""pyrun.py <module.py> <result.json> <scratch> [prop] [blob]: runs the module's properties."""
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import time
import traceback
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyrt  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st  # noqa: E402

W = 8


class Hang(BaseException):
    """The case did not end (Hypothesis lets it pass, so it is not shrunk)."""


def load(mod):
    sys.path.insert(0, os.path.dirname(os.path.abspath(mod)))
    spec = importlib.util.spec_from_file_location("pymod", mod)
    m = importlib.util.module_from_spec(spec)
    sys.modules["pymod"] = m
    spec.loader.exec_module(m)
    return m


def work(args):
    mod, name, n, sd, widx, blob = args
    import signal

    def on_hang(*unused):
        raise Hang()

    signal.signal(signal.SIGALRM, on_hang)
    signal.signal(signal.SIGVTALRM, on_hang)

    def watch(cpu, wall):
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
        signal.alarm(wall)

    try:
        load(mod)
    except BaseException:  # the repository code cannot be imported
        return dict(status="load", msg=traceback.format_exc(), n=0, nt=0, keys=[], labels={}, samples=[])
    rec = [p for p in pyrt.PROPS if p[0] == name][0]
    fn = rec[4]
    stats = dict(n=0, nt=0, keys=set(), labels={}, samples=[])
    state = dict(failed=False, last=None)

    def body(data):
        c = pyrt.Case(data)
        watch(20, 240)
        try:
            fn(c)
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except Exception:
            state["failed"] = True
            state["last"] = c.key
            raise
        finally:
            watch(0, 0)
            state["key"] = c.key
        if not state["failed"]:
            stats["n"] += 1
            for l in c.labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if c.nt:
                stats["nt"] += 1
                h = hashlib.blake2b((c.key or "").encode("utf-8", "surrogatepass"), digest_size=8).digest()
                if h not in stats["keys"]:
                    stats["keys"].add(h)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append((c.key or "")[:300])

    body.__name__ = name
    t = given(st.data())(body)
    if blob:
        ver, b = blob
        t = hypothesis.reproduce_failure(ver, b)(t)
    t = settings(max_examples=max(n, 1), database=None, deadline=None, print_blob=True, derandomize=False,
                 phases=[Phase.generate, Phase.target, Phase.shrink], report_multiple_bugs=False,
                 suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)(t)
    t = seed(zlib.crc32(("%d/%s/%d" % (sd, name, widx)).encode()))(t)
    out = dict(status="ok", msg="", blob=None)
    try:
        t()
    except hypothesis.errors.Flaky as e:
        out = dict(status="flaky", msg=traceback.format_exc())
    except Hang:
        out = dict(status="fail", msg="case did not terminate\n%s\ncase: %s" % (traceback.format_exc()[-3000:], state.get("key")), blob=None)
    except Exception as e:
        notes = "\n".join(getattr(e, "__notes__", []))
        m = re.search(r"reproduce_failure\('([^']+)', (b'[^']*'|b\"[^\"]*\")\)", notes)
        out = dict(status="fail", msg="%s\ncase: %s" % ("".join(traceback.format_exception(e))[-3000:], state["last"]),
                   blob=[m.group(1), eval(m.group(2)).decode("latin1")] if m else None)
    stats["keys"] = list(stats["keys"])
    out.update(stats)
    shutil.rmtree(os.path.join(os.environ["PYRT_SCRATCH"], "w%d" % os.getpid()), ignore_errors=True)
    return out


def finding(args):
    mod, key = args
    try:
        load(mod)
        fn = dict(pyrt.FINDINGS)[key]
        return bool(fn())
    except BaseException:
        return True


def main():
    mod, outp, scr = sys.argv[1:4]
    os.environ["PYRT_SCRATCH"] = scr
    tier = os.environ.get("VERIF_TIER", "quick")
    sd = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 4:
        r = work((mod, sys.argv[4], 1, sd, 0, (sys.argv[5], sys.argv[6].encode("latin1")) if len(sys.argv) > 5 else None))
        print(r["status"], r["msg"])
        return 1 if r["status"] in ("fail", "load") else 0
    only = os.environ.get("VERIF_ONLY")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    ctx = mp.get_context("fork")
    with ctx.Pool(1, maxtasksperchild=1) as p:
        names = p.apply(names_of, (mod,))
    results = []
    if isinstance(names, str):
        # The repository's own Python does not import: that is a failure of every property over it.
        results.append(dict(name="import", status="fail", msg=names, rule="the module under test imports", evaluations=1, nontrivial=1, distinct_nontrivial=1))
        json.dump(dict(props=results, findings=[]), open(outp, "w"))
        return 0
    pr, fi = names
    fnd = []
    with ctx.Pool(W, maxtasksperchild=1) as p:
        for name, q, th, rule in pr:
            if only and only != name:
                continue
            t0 = time.time()
            n = max(int((q if tier == "quick" else th) * scale), W)
            rs = p.map(work, [(mod, name, n // W, sd, i, None) for i in range(W)], chunksize=1)
            keys, labels, samples = set(), {}, []
            for r in rs:
                keys.update(r["keys"])
                samples += r["samples"]
                for k, v in r["labels"].items():
                    labels[k] = labels.get(k, 0) + v
            d = dict(name=name, rule=rule, status="ok", msg="", evaluations=sum(r["n"] for r in rs), nontrivial=sum(r["nt"] for r in rs),
                     distinct_nontrivial=len(keys), labels=labels, samples=samples[:4], wall_s=round(time.time() - t0, 2))
            bad = [r for r in rs if r["status"] in ("fail", "load")] or [r for r in rs if r["status"] != "ok"]
            if bad:
                bad.sort(key=lambda r: len(r.get("msg", "")))
                d["status"] = "fail" if bad[0]["status"] == "fail" else bad[0]["status"]
                d["msg"] = bad[0]["msg"]
                d["case"] = bad[0].get("blob")
            results.append(d)
        for key in fi:
            fnd.append(dict(key=key, present=p.apply(finding, ((mod, key),))))
    json.dump(dict(props=results, findings=fnd), open(outp, "w"))
    return 0


def names_of(mod):
    try:
        load(mod)
    except BaseException:
        return traceback.format_exc()
    return [(p[0], p[1], p[2], p[3]) for p in pyrt.PROPS], [f[0] for f in pyrt.FINDINGS]


if __name__ == "__main__":
    sys.exit(main())
