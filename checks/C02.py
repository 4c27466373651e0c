from vlib import opline
from checks.C01 import MODELS

NOTE = 'TLC checks every interleaving of the parallel evaluation design (ParEval.tla, 5 nodes, 3 workers) and validates recorded evaluations of real problems (sequential build and OpenMP build, 1-8 threads, perturbed timing). Real schedules are sampled, not enumerated.'


def run(ctx):
    ctx.build("shooting", "shooting_mt")
    ctx.modelcheck("ParEval", "ParEvalMC.cfg")
    n = 320 if ctx.quick else 4000
    hs = ctx.generate("ShootingGen", "ShootingGenEval.cfg", num=n, depth=26)
    k = 8
    for exe, spin in (("shooting", 0), ("shooting_mt", 0), ("shooting_mt", 2000)):
        jobs = []
        for j in range(k):
            if spin and j % 2:
                continue
            lines = list(MODELS) + ["spin n=%d" % spin]
            for h in hs[j::k]:
                lines.append("reset")
                lines += [opline(o) for o in h]
            name = "%s%d_%d" % (exe, spin, j)
            jobs.append((name, [ctx.opsfile(name + ".ops", lines), "{out}"]))
        ctx.conform(exe, jobs, "ShootingTrace", "ShootingTrace.cfg")
    ctx.notes["histories"] = len(hs)
