NOTE = "Which value of which setting is admissible and what an accepted change does are specified for every solver, the box QP, constraints and action models (in-range and no-leak invariants model checked over all histories of a few settings); generated histories of accepted and refused changes, solves, copies and casts run on the real objects, which report every setting after every operation."


def run(ctx):
    ctx.modelcheck("SettingsMC", "SettingsMC.cfg")
    ctx.standard("settings", "SettingsGen", "SettingsTrace", 180, 48, echo=True)
    ctx.standard("models", "ModelsGen", "ModelsTrace", 200, 26, offset=21, echo=True)
    ctx.standard("integ", "IntegGen", "IntegTrace", 100, 26, offset=21, echo=True)
