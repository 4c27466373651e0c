from checks.C05 import loop

NOTE = "TLC model checks the loop specification (all kinds, 2 step lengths, 2 iterations, every outcome of every routine) incl. that success is reported only for feasible trajectories below the threshold and the budget is kept; generated histories with boundary values drive the real solver loops (scripted directions/trials) and every call and observable value is validated exactly. Bounded: 6 solver classes, up to 4 iterations."


def run(ctx):
    loop(ctx, offset=2000, depth=60)
