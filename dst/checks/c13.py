"""C13: a JSON description means the circuit it describes, in whatever order its parts are listed."""
import numpy as np

from .. import docio, docs
from ..world import Diff, World, check_close, load_src

PROP = "C13"
LEVEL = "exploration"
COUNTS = {"quick": 260, "thorough": 20000}
RULE = ("distinct = different signature (cables and levels, kinds of connectors and sites, numbers of sources, probes, lumped "
        "elements and shield ends, listing order); trivial when no voltage above 1e-9 V ever appears")
COMPONENTS = {"real": ["src.jsonParser", "src.mtln.MTLN", "src.networks", "src.mtl.MTLD", "src.dispersive", "src.probes", "src.waveforms", "src.utils"],
              "stub": ["the file holding the description (written by the simulator)", "clock"],
              "oracle": "the reference model built from the abstract document, without going through JSON"}


def generate(rng, tier, index):
    rich = rng.random() < 0.6
    doc = docs.generate(rng, shields=rich, dispersive=rich, steps=50)
    return {"doc": doc, "perm": rng.choice([None, rng.randrange(10 ** 6)]), "n": rng.choice([1, 8, 25, 50]),
            "f": rng.choice([None, 1.0, 0.8, 0.4])}


def variants(scn):
    for d in docs.smaller(scn["doc"]):
        yield {**scn, "doc": d}
    for n in (1, 4, 12):
        if n < scn["n"]:
            yield {**scn, "n": n}
    if scn["perm"] is not None:
        yield {**scn, "perm": None}


def parse(doc, perm):
    return docio.parse_text(docs.text(doc, perm))


def order_of(parser, bundle):
    """Place of every cable among the conductors of its bundle, as the solver laid them out."""
    b = [x for x in parser.bundles if x.name == bundle]
    if len(b) != 1:
        raise Diff("structure", f"{len(b)} bundles named {bundle}")
    off, out = 0, {}
    for lev in sorted(b[0].levels):
        for ln in b[0].levels[lev]:
            out[ln.name] = (off, lev)
            off += ln.number_of_conductors
    return b[0], out, off


def column_map(parser, doc, bundle):
    """Solver column of every conductor, in the order of the abstract document."""
    obj, off, n = order_of(parser, bundle["name"])
    cols = []
    for lv, lev in enumerate(bundle["levels"]):
        for ln in lev:
            if ln["name"] not in off or off[ln["name"]][1] != lv:
                raise Diff("structure", f"cable {ln['name']} is not at level {lv} of {bundle['name']}")
            cols += [off[ln["name"]][0] + c for c in range(ln["n"])]
    if len(cols) != n:
        raise Diff("structure", f"{bundle['name']} has {n} conductors, {len(cols)} are described")
    return obj, cols


def execute(scn, ctx):
    doc = scn["doc"]
    ref = docs.meaning(doc)
    w = World(ref, load_src(), drive="ref")
    p = parse(doc, scn["perm"])
    for op in ref["ops"]:
        w.apply(op)
    dt = w.dt_max * (scn["f"] or 1.0)
    w.dt = dt
    p.run((scn["n"] + 0.5) * dt, dt if scn["f"] else 0)
    w.apply({"op": "run", "n": scn["n"]})
    tol = 5e-3 if docs.links(doc) else 2e-7
    sv, si = max(w.peak_v, 1e-12), max(w.peak_i, 1e-14)
    for b in doc["bundles"]:
        obj, cols = column_map(p, doc, b)
        rb = w.rb[b["name"]].b
        check_close(f"voltage on {b['name']}", obj.v[cols], rb.v, tol * sv)
        check_close(f"current on {b['name']}", obj.i[cols], rb.i, tol * si)
        ctx.event(b["name"], obj.v[cols], obj.i[cols])
    if set(p.probes) != {x["name"] for x in doc["probes"]}:
        raise Diff("structure", f"probes {sorted(p.probes)} for {[x['name'] for x in doc['probes']]}")
    info = docs.by_name(doc)
    for x, rec in zip(doc["probes"], w.probes):
        b = info[x["cable"]][0]
        _, cols = column_map(p, doc, b)
        got = np.array(p.probes[x["name"]].val, float)
        h = w.hist[b["name"]]
        k = rec["node"] if x["type"] == "voltage" else min(rec["node"], w.rb[b["name"]].b.N - 1)
        want = np.array([s[2][:, k] if x["type"] == "voltage" else s[3][:, k] for s in h])
        if got.shape != want.shape:
            raise Diff("probe", f"probe {x['name']} holds {got.shape}, expected {want.shape}")
        check_close(f"probe {x['name']} ({x['type']} on {x['cable']})", got[:, cols], want, tol * (sv if x["type"] == "voltage" else si))
    ctx.shape([[ln["n"] for ln in lev] for b in doc["bundles"] for lev in b["levels"]], scn["perm"] is not None,
              [s["kind"] + str(len(s["lines"])) for s in doc["sites"]], len(doc["sources"]), len(doc["drives"]), len(doc["lumped"]),
              len(doc["ends"]), [x["type"] for x in doc["probes"]], scn["n"])
    for s in doc["sites"]:
        ctx.hit(s["kind"] + "s")
    for k in ("lumped", "ends", "drives", "sources"):
        ctx.hit(k, len(doc[k]))
    if scn["perm"] is not None:
        ctx.fault("listing_order_shuffled")
    if scn["f"] and scn["f"] < 1:
        ctx.fault("time_step_change")
    w.finish(ctx)
