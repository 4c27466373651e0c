NOTE = "The parametrizations are specified as Lagrange interpolation at their nodes over exact rationals (unit sum, exact derivative, reproduction, assignment modes model checked on all small instances); generated histories of evaluations, fits, bounds and products over several data objects, with wrong sizes, run on the real classes and are compared value by value."


def run(ctx):
    ctx.modelcheck("ControlsMC", "ControlsMC.cfg")
    ctx.standard("controls", "ControlsGen", "ControlsTrace", 300, 34, echo=True)
