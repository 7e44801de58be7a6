"""C09: boundary conditions are honoured."""

from rfv import mon, sim

LEVEL = "exploration"
QUICK = (3000, 110)
THOROUGH = (50000, 780)
RULE = (
    "Random models with constant pressure, rate and gradient boundaries (all "
    "synonyms, corners, unset ones), set in bulk or one by one, before or after "
    "compilation and between timesteps; the monitor checks pressure and rate of "
    "every boundary cell in every row of the history, including the initial row, "
    "and the flow equation of the cells next to them. Non-trivial: distinct "
    "combination of structure, boundary kinds, and schedule."
)
NEED = ["pressure boundary", "rate boundary", "gradient boundary", "closed boundary"]


def gen_case(rng, tier):
    kw = {}
    if rng.random() < 0.4:
        kw["max_wells"] = 0
    return sim.gen_sim(rng, tier, plan=dict(changes=0.7, sym=0.08), **kw)


def mon_initial(ref, sol, obs):
    p, q = sol.pressures[0], sol.rates[0]
    for b in ref.grid.boundary:
        knd, v = ref.bc.get(b, (None, None))
        if knd == "pressure":
            mon.close(p[b], v, 1e-9 * abs(v), f"initial pressure of boundary {b}")
            mon.close(q[b], 0, 0, f"initial rate of pressure boundary {b}")
        else:
            if p[b] == p[b]:
                mon.fail(f"boundary {b} has an initial pressure {p[b]}")
            e = ref.b_flow(b, None)
            mon.close(q[b], e, 1e-9 * abs(e), f"initial rate of boundary {b}")
        obs.ev("initial boundary")


def run(case, obs):
    def start(model, ref, sol):
        mon_initial(ref, sol, obs)

    def group(model, ref, sol, first, last):
        mon.mon_shapes(ref, sol, last)
        for t in range(first, last + 1):
            mon.mon_bc(ref, sol, t, obs)
            mon.mon_flow(ref, sol, t, obs, 1e-9)

    sim.execute(case, start, group)
    obs.sig(sim.features(case))
