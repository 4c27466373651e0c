NOTE = "The saturation (inside its bounds, increasing, contracting, symmetric, limit of the clamp; slope against difference quotients: model checked on a grid) and the actuation composed of it with a polynomial inner actuation are specified over exact rationals; generated histories of constructions, smoothing and bound changes, evaluations, terminal calls, torque transforms and commands run on the real classes and are compared."


def run(ctx):
    ctx.modelcheck("SquashMC", "SquashMC.cfg")
    ctx.standard("squash", "SquashGen", "SquashTrace", 300, 30, echo=True)
