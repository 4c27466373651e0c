NOTE = "Activations, residuals and the cost made of them are specified over exact rationals (gradients model checked against difference quotients, boundaries included); generated histories of constructions, parameter changes, direct evaluations and costs of running and terminal nodes, with wrong sizes and inconsistent bounds, run on the real classes and every value, gradient and Hessian is compared with the specification."


def run(ctx):
    ctx.modelcheck("CostsMC", "CostsMC.cfg")
    ctx.standard("costs", "CostsGen", "CostsTrace", 300, 32, echo=True)
