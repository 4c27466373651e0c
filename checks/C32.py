NOTE = "The linearised friction, wrench and support models are specified over exact rationals and model checked against their meaning on grids (the inner pyramid lies in the cone of Coulomb, the outer one around it, both touch it; wrenches of corner forces are exactly what the wrench cone accepts; the support region keeps the centre of pressure in the rectangle); generated histories of four cones (constructed, reconfigured, updated, copied, assigned, derived, converted, with inadmissible parameters) run on the real classes, every parameter, row and bound of all of them is compared after every operation."


def run(ctx):
    ctx.modelcheck("ConesMC", "ConesMC.cfg" if ctx.quick else "ConesMCDeep.cfg")
    ctx.standard("cones", "ConesGen", "ConesTrace", 300, 28, echo=True)
