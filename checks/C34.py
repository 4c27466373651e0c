import json
import os

from vlib import opline

NOTE = "Residuals of robots (state, centroidal momentum, center of mass, frame position, rotation, placement and velocity, contact forces and their cones, torques against gravity, impulse) alone with the data they read: what each is of the motion, forces and torques at a point is specified, with the Gauss-Newton cost of a residual and weights; generated histories (references, frames and coordinates changed between evaluations of several data objects, forces from the dynamics or from the inputs, terminal evaluations, conversions, data of another kind, bad arguments) run on the real classes over the stand-in rigid-body library, derivatives against four-point differences or exactly (forces)."
# contact forces on the bodies, set after the data of the residual was made
GRAVITY = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c34_gravity.json")


def run(ctx):
    ctx.modelcheck("RobotResMC", "RobotResMC.cfg")
    ctx.standard("mb_residuals", "RobotResGen", "RobotResTrace", 240, 40, echo=True)
    with open(GRAVITY) as f:
        lines = [opline(op, True) for op in json.load(f)]
    ctx.known_case("contact-gravity-forces", "mb_residuals", "gravity", lines, "RobotResTrace", "RobotResTrace.cfg")
