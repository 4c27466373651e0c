from checks.C08 import numeric

NOTE = 'Problems (1-4 nodes, 1-3 states with padding, 0-3 controls, convex LQ / bilinear / indefinite with failing regions), solvers (DDP, FDDP, their box variants, Intro, KKT) and guesses are generated from the specification and run on the real solvers with extra probing trials; for strictly convex linear-quadratic problems, full unregularized steps are validated against the optimality conditions (costates and gap closure) and the predicted against the actual decrease; KKT directions against the KKT system.'


def run(ctx):
    numeric(ctx, offset=5000, quick=400)
