NOTE = "The stopwatch is specified as a state machine over exact microseconds (figures of each timer equal to an independent account of its history, model checked over every short history); generated histories of starts, stops, pauses, resets, watchers, profiler macros, modes, turning off and reports run on the real stopwatch and profiler under scripted clocks, and every figure, error and printed row is compared."


def run(ctx):
    ctx.modelcheck("StopwatchMC", "StopwatchMC.cfg")
    ctx.standard("stopwatch", "StopwatchGen", "StopwatchTrace", 400, 500, echo=True)
