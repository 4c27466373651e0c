NOTE = "The states of robots (one-dimensional joints and free-flying bases: position and quaternion moved by rigid motions in the body frame) and the maps of their actuations are specified with formulas whose laws are model checked; generated robots, points, displacements, Jacobians in every selection and assignment mode, limits, conversions, actuations, thrusters set anew and wrong sizes run on the real classes over a stand-in rigid-body library and are compared with the specification (Jacobians with differences of the recorded maps)."


def run(ctx):
    ctx.modelcheck("MbStateMC", "MbStateMC.cfg")
    ctx.standard("mb_state", "MbStateGen", "MbStateTrace", 80, 64, echo=True)
