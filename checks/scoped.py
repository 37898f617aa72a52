"""Scoped containers: Scoped.tla, exhaustive short + sampled long behaviours."""
import os
from vlib import Builder, VERIF, cfg


def run(c):
    b = Builder()
    exe = b.link("scoped", [os.path.join(VERIF, "harness/scoped.cc")])
    cases = []
    ex = {"vec": (1, 1, 2, c.q(7, 9)), "map": (1, 2, 2, c.q(5, 6)),
          "set": (1, 2, 1, c.q(6, 8))}
    for kind in ("vec", "map", "set"):
        for rnd in (False, True):
            if rnd:
                ni, nk, nv, ln = 2, 4, 3, c.q(40, 80)
            else:
                ni, nk, nv, ln = ex[kind]
            r = c.tlc("Scoped", cfg(
                invariants=["UndoLogIsExact", "MarksMonotone", "Emit"],
                constants={"Kind": '"%s"' % kind, "NI": ni, "NK": nk,
                           "NV": nv, "L": ln,
                           "Random": "TRUE" if rnd else "FALSE",
                           "Seed0": c.seed, "Runs": c.q(1200, 12000)}))
            for h in r.lines:
                ls = ["%s %d %d" % (kind, ni, nk)]
                for op, res, obs, _ in h:
                    ls.append(" ".join(map(str, op + [res, len(obs)] + obs)))
                cases.append(ls)
            c.samples.append({"kind": kind, "behaviour": cases[-1][:12]})
    st, ok, _ = c.replay(exe, cases, label="behaviour")
    c.coverage["steps_replayed"] = st.get("steps", 0)
    c.coverage["distinct_behaviours"] = len({tuple(x) for x in cases})
