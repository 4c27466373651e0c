from vlib import opline

NOTE = "TLC explores every reachable state of the stack specification (3 names, 6 kinds); histories of 30 operations are generated from it and replayed on the real stack, every observed state and evaluation validated exactly (integer values). Bounded: 4 names, 6 kinds; the order of the stack is existentially quantified."


def run(ctx):
    ctx.build("stacks")
    ctx.modelcheck("ConstraintStackGen", "ConstraintStackMC.cfg")
    hs = ctx.generate("ConstraintStackGen", "ConstraintStackGen.cfg", num=400 if ctx.quick else 8000, depth=31)
    k = 8
    jobs = []
    for j in range(k):
        lines = []
        for h in hs[j::k]:
            lines.append("reset")
            lines += [opline(o) for o in h]
        jobs.append(("h%d" % j, ["g", ctx.opsfile("h%d.ops" % j, lines), "{out}"]))
    ctx.notes["histories"] = len(hs)
    ctx.conform("stacks", jobs, "ConstraintStackTrace", "ConstraintStackTrace.cfg")
