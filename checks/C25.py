NOTE = "A conversion as an operation on the description of a component (its numbers, each rounded, and its other properties), with round-trip, representability and independence properties model checked over all histories of conversions and changes of a small component; generated histories of conversions, changes and evaluations of every built-in component run on the real objects, which report their whole description after every operation."


def run(ctx):
    ctx.modelcheck("CastMC", "CastMC.cfg")
    ctx.standard("cast", "CastGen", "CastTrace", 250, 26, echo=True)
    ctx.standard("models", "ModelsGen", "ModelsTrace", 150, 26, offset=25, echo=True)
