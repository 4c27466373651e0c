NOTE = "Models and data objects are specified as a state machine in which an evaluation is a function of current parameters and inputs (model checked); generated histories of constructions, parameter changes, copies, limits and interleaved evaluations over several data objects run on the real models, and every used data object must return what a brand-new one returns and no evaluation may change what a model reports."


def run(ctx):
    ctx.modelcheck("ModelDataMC", "ModelDataMC.cfg")
    ctx.standard("models", "ModelsGen", "ModelsTrace", 160, 30, offset=15, echo=True)
    ctx.standard("integ", "IntegGen", "IntegTrace", 200, 22, offset=16, echo=True)
    ctx.standard("costs", "CostsGen", "CostsTrace", 120, 32, offset=17, echo=True)
    ctx.standard("squash", "SquashGen", "SquashTrace", 100, 30, offset=18, echo=True)
