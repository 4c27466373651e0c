NOTE = "Forward dynamics (free and in contact), inverse dynamics (free and in contact) and impact actions of random robots are specified by their equations (motion, contacts held, impact law with restitution and damping), their inputs, costs, constraints and quasi-static inputs; the laws are model checked in exact arithmetic (solutions are the only ones, inverse undoes forward dynamics, an impact loses exactly the energy the restitution says, certified quasi-static inputs are the shortest), and generated histories (contact status changes, armature, damping, restitution, several data objects, conversions, wrong sizes, terminal evaluation) run on the real classes over a stand-in rigid-body library: equations checked with the recorded mass matrix, bias and contact Jacobian, derivatives against four-point differences of the action itself."


def run(ctx):
    ctx.modelcheck("RobotDynMC", "RobotDynMC.cfg")
    ctx.standard("mb_actions", "RobotDynGen", "RobotDynTrace", 240, 44, echo=True)
