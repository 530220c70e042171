"""Generated compile-time programs: builds and runs them, and turns a program the
compiler cannot evaluate (although the same program without constant evaluation
builds) or a value mismatch into a violation."""
import os
import re
import time


def lit(b):
    return '"' + "".join("\\%03o" % c for c in b) + '"'


def run_programs(r, rng, per, progs, t0, make_cases, gen, rule, show=lambda c: repr(c)[:200], nontrivial=lambda c: True, label=lambda c: str(c[0])):
    sh = r.sh
    jobs = []
    for p in range(progs):
        cases = make_cases(rng, per)
        jobs.append((p, cases))

    def one(job):
        p, cases = job
        cxx = ["/usr/bin/clang++", "/usr/bin/g++-13"][p % 2]
        lim = ["-fconstexpr-steps=100000000"] if p % 2 == 0 else ["-fconstexpr-ops-limit=1000000000", "-fconstexpr-loop-limit=10000000", "-ftemplate-depth=2000"]
        src = os.path.join(r.build, "ct%d.cc" % p)
        with open(src, "w") as f:
            f.write(gen(rng, cases))
        exe = src[:-3]
        # -O0: clang 18 -O1 folds memchr over constant strings with chars >= 0x80 wrongly (wrong run-time reference)
        cmd = [cxx, "-std=c++20", "-O0", "-w"] + lim + r.incs(False) + [src, "-o", exe]
        rc, out = sh(cmd, 600)
        if rc != 0:
            # does the same program without compile-time evaluation build?
            with open(src, "w") as f:
                f.write(gen(rng, cases, ct=False))
            rc2, out2 = sh(cmd, 600)
            with open(src, "w") as f:
                f.write(gen(rng, cases))
            if rc2 != 0:
                return ("error", p, out2[-2000:], cases, None)
            m = re.search(r"CASE (\d+)", out)
            return ("noconst", p, out[:2500], cases, int(m.group(1)) if m else None)
        rc, out = sh([exe], 120)
        bad = [int(x) for x in re.findall(r"MISMATCH (\d+)", out)]
        if bad or "DONE" not in out:
            return ("mismatch", p, out[-1500:], cases, bad[0] if bad else None)
        return ("ok", p, "", cases, None)

    results = list(r.ex.map(one, jobs))
    evals = 0
    status = "ok"
    labels = {}
    for st, p, out, cases, idx in results:
        evals += len(cases)
        for c in cases:
            labels[label(c)] = labels.get(label(c), 0) + 1
        if st == "error":
            raise r.Internal("constexpr program does not compile even without constant evaluation:\n" + out)
        if st != "ok" and status == "ok":
            status = "fail"
            # reduce to the single failing case
            case = cases[idx] if idx is not None else None
            path = os.path.join(r.replays, "%s-constexpr-%d.cc" % (r.prop, p))
            with open(path, "w") as f:
                f.write(gen(rng, [case] if case else cases))
            r.violation(dict(kind="program", program=path, message="%s: %s\n%s" % (
                "not a constant expression" if st == "noconst" else "compile-time value differs from run-time value",
                show(case) if case else "", out)), "constexpr")
    smp = [show(c) for c in results[0][3][:4]]
    nt = {repr(c) for _, _, _, cs, _ in results for c in cs if nontrivial(c)}
    return [dict(name="constexpr_programs", rule=rule, status=status, evaluations=evals, nontrivial=len(nt), distinct_nontrivial=len(nt), labels=labels,
                 samples=smp, wall_s=round(time.time() - t0, 2))]
