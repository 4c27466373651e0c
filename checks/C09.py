from checks.C08 import numeric

NOTE = 'Problems (1-4 nodes, 1-3 states with padding, 0-3 controls, convex LQ / bilinear / indefinite with failing regions), solvers (DDP, FDDP, their box variants, Intro, KKT) and guesses are generated from the specification and run on the real solvers with extra probing trials; every trial (state, control, cost, gap left over, failure) is validated in exact arithmetic against the forward-pass equations of the specification.'


def run(ctx):
    numeric(ctx, offset=3000, quick=240)
