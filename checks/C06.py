from checks.C05 import loop

NOTE = "TLC model checks the loop specification (all kinds, 2 step lengths, 2 iterations, every outcome of every routine) incl. that the regularization stays in range and every solve ends; generated histories with boundary values drive the real solver loops (scripted directions/trials) and every call and observable value is validated exactly. Bounded: 6 solver classes, up to 4 iterations."


def run(ctx):
    loop(ctx, offset=1000, depth=110)
