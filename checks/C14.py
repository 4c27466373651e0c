NOTE = "What a solve may read is model checked over all histories of solves, aborts, rejections and edits (SolverHist); generated histories of edits, settings, aborted solves and guesses of every shape run on a real used solver, each solve compared with a new solver on a new problem made of the same models."


def run(ctx):
    ctx.modelcheck("SolverHistMC", "SolverHistMC.cfg")
    ctx.standard("resolve", "SolverHistGen", "SolverHistTrace", 900, 20)
