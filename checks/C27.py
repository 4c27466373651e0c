NOTE = "The nonlinear program of a shooting problem is specified exactly (variable blocks, limits, objective, gaps, start condition, gradient, Jacobian, Hessian of the costs) on a Euclidean state and on a group; TLC checks on small problems that the constraints vanish exactly on consistent trajectories, that all derivatives are the limits of exact differences, and that accepting a point keeps objective and gaps. Generated histories (problems with mixed control sizes, bases, callbacks in any order and at changing points, accepted points, changed nodes and start points) call the real interface directly and every answer is compared; real solves with the library must return trajectories that are consistent, within limits and stationary whenever they report success, with the cost of what they return."


def run(ctx):
    ctx.modelcheck("InteriorPointMC", "InteriorPointMC.cfg")
    ctx.standard("ipopt", "InteriorPointGen", "InteriorPointTrace", 300, 22, echo=True)
