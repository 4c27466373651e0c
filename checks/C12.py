from checks.C08 import numeric

NOTE = 'Problems (1-4 nodes, 1-3 states with padding, 0-3 controls, convex LQ / bilinear / indefinite with failing regions), solvers (DDP, FDDP, their box variants, Intro, KKT) and guesses are generated from the specification and run on the real solvers with extra probing trials; every direction of a limited node is validated against the optimality conditions of its box-constrained problem, feedback rows against the free set, every trial and accepted control against the limits.'


def run(ctx):
    numeric(ctx, offset=6000, quick=400)
