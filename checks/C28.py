NOTE = "The verbose callback as a state machine of configurations and printed lines (names every tenth iteration, one row per call; header age, alignment and nesting of the levels model checked over all histories of up to 22 iterations); generated histories of configurations, calls with given values and real solves run on the real callback, whose every printed word is compared with the specified text."


def run(ctx):
    ctx.modelcheck("VerboseMC", "VerboseMC.cfg")
    ctx.standard("verbose", "VerboseGen", "VerboseTrace", 120, 32, echo=True)
