NOTE = "Helpers are specified: tables as text written by puts and row ends (model checked to read back field by field), versions as an order, pseudo-inverses by the four Moore-Penrose conditions (unique, model checked) and a cut-off, definiteness by exact elimination, timers as exact durations. Generated histories run on the real helpers under scripted clocks and versions, in both precisions, and every result is compared, matrices in exact arithmetic. Bounded: matrices up to 4 by 4."


def run(ctx):
    ctx.modelcheck("HelpersMC", "HelpersMC.cfg")
    ctx.standard("helpers", "HelpersGen", "HelpersTrace", 320, 62, echo=True)
