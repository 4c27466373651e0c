NOTE = "The gait problems of a quadruped: walks (which start with half a step of the right feet), steps of any feet, single nodes with and without references, impulses; which feet stand, what is followed, for how long, at what cost, and where a step leaves the feet and the center of mass are specified; the specification of a robot that walks on is model-checked, and generated histories of one generator are run on the real class over the stand-in rigid-body library, every node read back and some evaluated."


def run(ctx):
    ctx.modelcheck("GaitMC", "GaitMC.cfg" if ctx.quick else "GaitMCDeep.cfg")
    ctx.standard("gait", "GaitGen", "GaitTrace", 60, 14, echo=True)
