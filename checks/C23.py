NOTE = "Components are specified as exact rational functions on two state spaces, their derivatives along small motions model checked against exact higher-order differences; the wrappers as a machine whose results depend on the component and the point only. Generated histories (constructions, data objects, disturbances, running and terminal evaluations interleaved with a second data object) run on the real wrappers of actions, continuous models, states, activations, controls, costs, residuals, constraints, actuations and contacts; values, derivatives within the error of the scheme, dimensions and limits are compared after every operation."


def run(ctx):
    ctx.modelcheck("NumDiffMC", "NumDiffMC.cfg")
    ctx.standard("numdiff", "NumDiffGen", "NumDiffTrace", 300, 22, echo=True)
