from vlib import opline

NOTE = "Problems (1-4 nodes, 1-3 states, 0-3 controls, convex LQ / bilinear / indefinite with failing regions), solvers and guesses are generated from the specification and run on the real solvers; the gaps, feasibility measures, cost and flags of every direction, trial and iteration are validated against the specification in exact arithmetic."


def numeric(ctx, offset=0, quick=240):
    ctx.build("solver_num")
    ctx.seed += offset
    hs = ctx.generate("SolverNumGen", "SolverNumGen.cfg", num=quick if ctx.quick else 20 * quick, depth=5)
    ctx.seed -= offset
    k = 8 if ctx.quick else 64
    jobs = []
    for j in range(k):
        lines = []
        for h in hs[j::k]:
            lines += [opline(o) for o in h]
        jobs.append(("h%d" % j, [ctx.opsfile("h%d.ops" % j, lines), "{out}"]))
    ctx.notes["problems"] = len(hs)
    ctx.conform("solver_num", jobs, "SolverNumTrace", "SolverNumTrace.cfg", drv_env={"MALLOC_PERTURB_": "1"})


# one nonlinear node: the KKT step leaves a gap and the trajectory is marked as feasible all the same
KKT = """prob n=1 pad=0 x0=1
node term=0 nu=1 A=1 B=1 c=0 e=1/2 f=0 Q=6 N=0 R=6 q=1 r=1 w=0 nanat=1000000000 Gx=- Gu=- gc=- glb=- gub=- Hx=- Hu=- hc=- lim=0 lb=- ub=-
node term=1 nu=0 A=1 B=- c=0 e=0 f=0 Q=6 N=- R=- q=1 r=- w=0 nanat=1000000000 Gx=- Gu=- gc=- glb=- gub=- Hx=- Hu=- hc=- lim=0 lb=- ub=-
solver kind=kkt lq=0 rmin=0 rmax=1000 thA=1/10 al=1,0.5 eq=lu zu=0 norm=inf
solve max=1 reg=0 feas=0 roll=0 probes=- xs=0;0 us=1""".split("\n")


def run(ctx):
    numeric(ctx)
    ctx.known_case("kkt-feasible-flag", "solver_num", "kkt-flag", KKT, "SolverNumTrace", "SolverNumTrace.cfg", {"STRICT": "1"})
