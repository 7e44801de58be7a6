"""C07: discretized flow equation of every cell at every timestep."""

from rfv import mon, sim

LEVEL = "exploration"
QUICK = (2400, 110)
THOROUGH = (40000, 780)
RULE = (
    "Random models (1D-3D in every flow direction, field/metric/lab, constant or "
    "per-cell sizes, homogeneous/anisotropic/heterogeneous rock, dipping or random "
    "depths, compressible or not, wells, all boundary kinds) are run over random "
    "schedules with well and boundary changes in between; the monitor evaluates the "
    "balance of every cell over every timestep with an independent discretization. "
    "Non-trivial: distinct combination of structure, sources, and schedule."
)
NEED = ["cell flow equation"]


def gen_case(rng, tier):
    return sim.gen_sim(rng, tier)


def run(case, obs):
    def group(model, ref, sol, first, last):
        mon.mon_shapes(ref, sol, last)
        for t in range(first, last + 1):
            obs.mx("relative residual", mon.mon_flow(ref, sol, t, obs, 1e-9))

    sim.execute(case, on_group=group)
    obs.sig(sim.features(case))
