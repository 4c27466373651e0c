NOTE = "The state is specified as a difference/integration pair over exact rationals (laws model checked, also for a non-commutative group used elsewhere); generated histories of differences, motions, Jacobians in every selection and assignment mode on arbitrary matrices, transports, limits and wrong sizes run on the real state and are compared with the specification."


def run(ctx):
    ctx.modelcheck("StateSpaceMC", "StateSpaceMC.cfg")
    ctx.standard("state", "StateGen", "StateTrace", 300, 34, echo=True)
