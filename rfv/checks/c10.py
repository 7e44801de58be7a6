"""C10: well control."""

import numpy as np

from rfv import mon, sim

LEVEL = "exploration"
QUICK = (3000, 110)
THOROUGH = (50000, 780)
RULE = (
    "Random 1D-3D models with up to four wells (rate, bottom hole pressure, or both; "
    "production and injection; skin; defined by arguments or objects), which are "
    "changed, added and switched by depletion or support between timesteps; the "
    "monitor checks inflow performance and the active control of every well in every "
    "timestep. Non-trivial: distinct combination of structure, wells, and schedule."
)
NEED = ["pwf well", "rate well on rate", "rate well on pressure limit"]


def gen_case(rng, tier):
    fdir = rng.choices(["x", "xy", "xyz"], [3, 4, 4])[0]
    c = sim.gen_sim(
        rng, tier, fdir=fdir, max_wells=rng.choice([4] * 19 + [9]), plan=dict(changes=0.6, sym=0.08, long=0.08)
    )
    return c


def run(case, obs):
    def group(model, ref, sol, first, last):
        mon.mon_shapes(ref, sol, last)
        if set(model.wells) != set(ref.wells):
            mon.fail(f"wells {set(model.wells)}, expected {set(ref.wells)}")
        for c in ref.wells:
            n = len(model.w_pressures[c])
            if n != last + 1:
                mon.fail(f"well {c}: {n} bottom hole pressures for {last} timesteps")
            G, req = ref.well_G(c, ref.wells[c])
            w = model.wells[c]
            mon.close(w["r_eq"], req, 1e-9 * req, f"equivalent radius of well {c}")
            mon.close(w["G"], G, 1e-9 * abs(G), f"geometric factor of well {c}")
            mon.close(w["q"], sol.rates[last, c], 1e-9 * abs(w["q"]), f"q of well {c}")
            f = model.w_pressures[c][last]
            mon.close(w["pwf"], f, 1e-9 * abs(f), f"pwf of well {c}")
            obs.ev("well state")
        for t in range(first, last + 1):
            mon.mon_wells(ref, sol, t, obs)
            mon.mon_flow(ref, sol, t, obs, 1e-9)
            if not np.isfinite(sol.rates[t]).all():
                mon.fail(f"rates are not finite at timestep {t}")

    sim.execute(case, None, group)
    obs.sig(sim.features(case))
