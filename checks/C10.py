from checks.C08 import numeric

NOTE = 'Problems (1-4 nodes, 1-3 states with padding, 0-3 controls, convex LQ / bilinear / indefinite with failing regions), solvers (DDP, FDDP, their box variants, Intro, KKT) and guesses are generated from the specification and run on the real solvers with extra probing trials; every direction is validated in exact arithmetic against the Riccati equations of the specification (action-value terms, gains, value function with gap terms, regularization, symmetry), the predicted change against the quadratic model, and every failed direction against a bounded-precision walk of the recursion that must find a system that is not positive definite.'


def run(ctx):
    numeric(ctx, offset=4000, quick=240)
