from vlib import opline

TABLE = [(1, 2, 2, 1), (1, 2, 2, 1), (2, 2, 2, 2), (3, 2, 2, 0), (4, 3, 2, 1), (5, 2, 1, 1)]
MODELS = ["model id=%d kind=%d nx=%d ndx=%d nu=%d" % ((i + 1,) + t) for i, t in enumerate(TABLE)]

NOTE = "TLC checks Shooting.tla's invariants exhaustively for small horizons and histories of up to 3 (thorough 4) edits; randomly generated histories of 25 operations are replayed on real problems and every observed state validated against the specification. Bounded: 3 problems, horizons 1-4, 6 model kinds."


def run(ctx):
    ctx.build("shooting")
    ctx.modelcheck("ShootingGen", "ShootingMC.cfg")
    n = 400 if ctx.quick else 6000
    hs = ctx.generate("ShootingGen", "ShootingGen.cfg", num=n, depth=26)
    jobs = []
    k = 8
    for j in range(k):
        lines = list(MODELS)
        for h in hs[j::k]:
            lines.append("reset")
            lines += [opline(o) for o in h]
        jobs.append(("h%d" % j, [ctx.opsfile("h%d.ops" % j, lines), "{out}"]))
    ctx.notes["histories"] = len(hs)
    ctx.conform("shooting", jobs, "ShootingTrace", "ShootingTrace.cfg")
