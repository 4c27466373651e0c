NOTE = "The documented formulas are specified over exact rationals; generated histories (odd and even sizes, rank-deficient costs, no controls, constraint rows, inadmissible parameters, wrong-sized inputs) run on the real models and every value, derivative, acceptance and rejection is compared with the specification."


def run(ctx):
    ctx.modelcheck("ModelDataMC", "ModelDataMC.cfg")
    ctx.standard("models", "ModelsGen", "ModelsTrace", 160, 30, offset=16, echo=True)
