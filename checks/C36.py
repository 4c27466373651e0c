NOTE = "The Newton iteration that looks for the control holding a state is specified over exact rationals with the Moore-Penrose inverse by full-rank factorization (Penrose's properties, least motion, closest to the start, fixed point model checked on all small systems); generated histories of models (polynomial motions of a user, linear-quadratic, unicycle, inside integrators with every control parametrization and inside numerical differentiation), data of any age including undefined values, starts, iteration budgets and tolerances run on the real code and every returned control is compared."


def run(ctx):
    ctx.modelcheck("RestMC", "RestMC.cfg" if ctx.tier == "quick" else "RestMCDeep.cfg")
    ctx.standard("rest", "RestGen", "RestTrace", 300, 34, echo=True)
