from vlib import opval

NOTE = "TLC model checks the loop specification (all kinds, 2 step lengths, 2 iterations, every outcome of every routine) incl. that trials are taken only by the rule; generated histories with boundary values drive the real solver loops (scripted directions/trials) and every call and observable value is validated exactly. Bounded: 6 solver classes, up to 4 iterations."


def line(o):
    if o["op"] == "new":
        return "new " + " ".join("%s=%s" % (k, opval(v)) for k, v in o["k"].items())
    return " ".join([o["op"]] + ["%s=%s" % (k, opval(v)) for k, v in o.items() if k != "op"])


def loop(ctx, offset=0, depth=60):
    ctx.build("solver_loop")
    ctx.modelcheck("SolverLoopGen", "SolverLoopMC.cfg")
    ctx.seed += offset
    hs = ctx.generate("SolverLoopGen", "SolverLoopGenLong.cfg" if depth > 60 else "SolverLoopGen.cfg", num=(500 if ctx.quick else 8000) * 60 // depth, depth=depth)
    ctx.seed -= offset
    k = 8
    jobs = []
    for j in range(k):
        lines = []
        for h in hs[j::k]:
            lines += [line(o) for o in h]
        jobs.append(("h%d" % j, [ctx.opsfile("h%d.ops" % j, lines), "{out}"]))
    ctx.notes["histories"] = len(hs)
    ctx.conform("solver_loop", jobs, "SolverLoopTrace", "SolverLoopTrace.cfg")


def run(ctx):
    loop(ctx)
