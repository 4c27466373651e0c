NOTE = "The schemes (symplectic Euler, Runge-Kutta of order 2, 3, 4) over any differential model, control parametrization and state space are specified over exact rationals, with derivatives by the chain rule through every stage; generated histories of constructions, time-step and differential-model changes, data objects and evaluations (polynomial dynamics, costs, constraints, a non-commutative state) run on the real integrators and every recorded value is compared with the specification."


def run(ctx):
    ctx.modelcheck("IntegMC", "IntegMC.cfg")
    ctx.standard("integ", "IntegGen", "IntegTrace", 400, 22, echo=True)
