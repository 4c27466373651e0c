NOTE = "Stacks of contacts (1d, 2d, 3d, 6d; every reference frame, gains, reference) and impulses of random robots are specified: contents, dimensions, which components of the frames' acceleration are prescribed, and the force on each body; laws are model checked (counters over all histories, forces are the transpose of the prescribed components), and generated histories of edits, status changes, evaluations over several data objects, forces, derivatives, wrong sizes and conversions run on the real classes over a stand-in rigid-body library whose kinematics are recorded (derivatives against four-point differences)."


def run(ctx):
    ctx.modelcheck("ContactsMC", "ContactsMC.cfg")
    ctx.standard("mb_contacts", "ContactsGen", "ContactsTrace", 80, 54, echo=True)
