NOTE = "The projected Newton iteration of the specification is model checked on all small problems (it descends, never stalls and ends at the minimizer); sequences of problems (1-5 entries, infinite, equal and one-sided bounds, resized and reconfigured objects, arguments of the wrong size) are generated, run on the real solver and every result validated in exact arithmetic: bounds, optimality, partition, roles, inverse, agreement with a new solver."


def run(ctx):
    ctx.modelcheck("BoxQPMC", "BoxQPMC.cfg")
    ctx.standard("box_qp", "BoxQPGen", "BoxQPTrace", 240, 18)
