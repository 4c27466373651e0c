from checks.C08 import numeric

NOTE = 'Problems (1-4 nodes, 1-3 states with padding, 0-3 controls, convex LQ / bilinear / indefinite with failing regions), solvers (DDP, FDDP, their box variants, Intro, KKT) and guesses are generated from the specification and run on the real solvers with extra probing trials; every direction of the equality-constrained solver (all three null-space/Schur variants) is validated against the linearized constraints and the reduced stationarity conditions; penalties only rise and accepted steps decrease the merit.'


def run(ctx):
    numeric(ctx, offset=7000, quick=400)
