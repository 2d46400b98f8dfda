"""C12: a description that cannot be read in full is reported; one that can be read gives the same simulation however it was read."""
import copy
import errno
import gc
import json
import os
import random
import tempfile

import numpy as np

from .. import child, docio, docs, iofaults, threads
from ..world import Diff

PROP = "C12"
LEVEL = "exploration"
COUNTS = {"quick": 1500, "thorough": 25000}
RULE = ("distinct = different signature (mode, kind and place of the fault, structure of the description); trivial when the file was "
        "never opened through the simulated disk or no fault fired in a mode that injects one")
COMPONENTS = {"real": ["src.jsonParser.Parser", "json", "src.mtln", "src.mtl", "src.networks"],
              "stub": ["the disk under the description file", "thread scheduler (mode threads)"],
              "oracle": "the same description read from a sound disk, alone"}
ERRS = [errno.EIO, errno.ENOSPC, errno.ESTALE, errno.EACCES, errno.EISDIR]


def generate(rng, tier, index):
    mode = rng.choice(["short", "error", "torn", "torn", "open", "blocks", "dangling", "dangling", "misnamed", "misnamed",
                       "undefined", "doubled", "unmet", "threads"])
    rich = rng.random() < 0.6
    scn = {"mode": mode, "doc": docs.generate(rng, shields=rich, dispersive=rich, steps=20), "perm": rng.choice([None, rng.randrange(10 ** 6)]),
           "n": 12, "seed": rng.randrange(10 ** 9), "short": rng.choice([0, 0, 1, 7, 100])}
    if mode == "short":
        scn["short"] = rng.choice([1, 2, 13, 400])
        scn["names"] = rng.random() < 0.5
    elif mode in ("error", "torn", "blocks"):
        scn["at"] = rng.random()
        scn["err"] = rng.choice(ERRS)
        scn["times"] = rng.choice([1, 3])
        scn["keep_tail"] = rng.random() < 0.5
    elif mode == "open":
        scn["err"] = rng.choice([errno.ENOENT, errno.EACCES, errno.EMFILE, errno.EIO])
    elif mode == "dangling":
        scn["pick"] = rng.random()
        scn["part"] = rng.choice(["materials", "coordinates", "cables", "bundles", "line", "polyline", "node"])
    elif mode in ("undefined", "doubled", "unmet"):
        scn["pick"] = rng.random()
        scn["what"] = rng.random()
    elif mode == "misnamed":
        scn["pick"] = rng.random()
        scn["key"] = rng.choice(sorted(REFS) + ["line", "polyline", "node"])
    else:
        rich = rng.random() < 0.5
        scn["other"] = docs.generate(rng, shields=rich, dispersive=rich, steps=20) if rng.random() < 0.7 else copy.deepcopy(scn["doc"])
        scn["n"] = 3
        scn["quantum"] = rng.choice([[1, 30], [20, 300], [200, 3000]])
    return scn


def variants(scn):
    for d in docs.smaller(scn["doc"]):
        yield {**scn, "doc": d}
    if scn["short"]:
        yield {**scn, "short": 0}
    if scn["perm"] is not None:
        yield {**scn, "perm": None}


def run(p, n):
    dt = min(b.dt for b in p.bundles)
    p.run((n + 0.5) * dt)
    return {"state": {b.name: child.digest(b.v, b.i) for b in p.bundles},
            "columns": {b.name: [[ln.name for ln in b.levels[k]] for k in sorted(b.levels)] for b in p.bundles},
            "probes": {k: child.digest(q.t, q.val) for k, q in p.probes.items()}}


def text_of(scn, doc, perm):
    j = docs.render(doc, perm)
    if scn.get("names"):                 # names that take several bytes per letter
        for part in ("cables", "bundles", "probes"):
            for x in j["model"].get(part, []):
                x["name"] += "·μ∞𝛀"
        for part in ("sources", "probes", "lumpedElements"):
            for x in j["model"].get(part, []):
                if "cable" in x:
                    x["cable"] += "·μ∞𝛀"
        return json.dumps(j, ensure_ascii=False)
    return json.dumps(j, indent=1 if perm is None else None)


def torn(scn, data):
    at = max(1, int(scn["at"] * (len(data) - 1)))
    if scn["mode"] == "torn":
        return data[:at]
    out = bytearray(data)                # blocks that never reached the disk read back as zeros
    size = 64
    a = at // size * size
    out[a:a + size if scn["keep_tail"] else len(out)] = bytes(len(out[a:a + size if scn["keep_tail"] else len(out)]))
    return bytes(out)


def execute(scn, ctx):
    if scn["mode"] == "threads":
        return concurrent(scn, ctx)
    if scn["mode"] in ("dangling", "misnamed", "undefined", "doubled"):
        return dangling(scn, ctx)
    if scn["mode"] == "unmet":
        return unmet(scn, ctx)
    from src.jsonParser import Parser
    text = text_of(scn, scn["doc"], scn["perm"])
    data = text.encode("utf-8")
    rng = random.Random(scn["seed"])
    fd, path = tempfile.mkstemp(suffix=".smb.json", prefix="dst-")
    os.close(fd)
    try:
        with open(path, "wb") as f:
            f.write(data)
        sound = run(Parser(path), scn["n"])
        kw = {"short": scn["short"]}
        body = data
        if scn["mode"] == "error":
            kw.update(fail_at=int(scn["at"] * (len(data) - 1)), err=scn["err"], times=scn["times"])
        elif scn["mode"] == "open":
            kw.update(open_error=scn["err"])
        elif scn["mode"] in ("torn", "blocks"):
            body = torn(scn, data)
        with open(path, "wb") as f:
            f.write(body)
        disk = iofaults.Disk(path, body, rng, **kw)
        caught = parser = None
        try:
            with disk:
                parser = Parser(path)
        except Exception as e:
            if isinstance(e, Diff):
                raise
            caught = e.with_traceback(None)
            caught.__context__ = None
        gc.collect()
        ctx.shape(scn["mode"], scn["short"], scn.get("at"), scn.get("err"), len(data))
        for k, v in disk.fired.items():
            ctx.fault(k, v)
        if disk.fired.get("written"):
            raise Diff("writes", "reading a description opened its file for writing")
        if disk.live:
            raise Diff("leak", f"{disk.live} handles of the description file stay open")
        if scn["mode"] in ("torn", "blocks"):
            ctx.fault("lost_bytes" if scn["mode"] == "torn" else "lost_blocks")
        bad = body != data or disk.fired.get("read_error") or disk.fired.get("open_error")
        if bad and caught is None:
            again = run(parser, scn["n"])
            if disk.fired.get("read_error") and body == data and again == sound:
                ctx.hit("read_again_after_an_error")
            else:
                raise Diff("silent", f"a description that could not be read in full ({scn['mode']}) was accepted; the simulation is {'the same' if again == sound else 'another one'}")
        elif not bad:
            if caught is not None:
                raise Diff("refused", f"a sound description read in short pieces was refused: {type(caught).__name__}: {caught}")
            if run(parser, scn["n"]) != sound:
                raise Diff("value", "a description read in short pieces gives another simulation")
            ctx.hit("read_in_pieces")
        else:
            ctx.hit("reported_as_" + type(caught).__name__)
        # once the disk works again, so does everything else
        with open(path, "wb") as f:
            f.write(data)
        if run(Parser(path), scn["n"]) != sound:
            raise Diff("value", "after a failed attempt the same description gives another simulation")
        with open(path, "rb") as f:
            if f.read() != data:
                raise Diff("writes", "reading a description changed its file")
        ctx.event(sound, type(caught).__name__)
        ctx.steps += 2 * scn["n"]
        ctx.nontrivial = disk.opens > 0 and (scn["mode"] != "error" or bool(disk.fired.get("read_error")))
    finally:
        os.unlink(path)


REFS = {"cable", "materialId", "initialConnectorId", "endConnectorId", "elemIds", "coordIds", "unitedCoordIds"}


def misname(m, key, pick):
    """Let one reference of the kind point to something that does not exist; returns where, None if there is none."""
    found = []

    def walk(x, path, inside):
        if isinstance(x, dict):
            for k, v in x.items():
                walk(v, path + [k], inside or k == key)
        elif isinstance(x, list):
            for k, v in enumerate(x):
                walk(v, path + [k], inside)
        elif inside:
            found.append(path)
    if key in REFS:
        for part in m:
            if part not in ("materials", "elements", "coordinates"):
                walk(m[part], [part], False)
    else:
        found = [["elements", key, k] for k in range(len(m["elements"].get(key, [])))]
    if not found:
        return None
    parts = sorted({f[0] for f in found})        # rare parts as often as common ones
    found = [f for f in found if f[0] == parts[int(pick * len(parts))]]
    path = found[int(pick * 9973 % 1 * len(found))]
    x = m
    for k in path[:-1]:
        x = x[k]
    old = x[path[-1]]
    if key in REFS:
        new = old + "?" if isinstance(old, str) else 987654
    else:
        words = old.split()
        words[-1] = "987654"
        new = " ".join(words)
    x[path[-1]] = new
    return "/".join(map(str, path)) + f": {old} -> {new}"


KINDS = {"materialType", "connectorType", "connections", "direction", "sourceType", "type"}


def undefined(m, pick, what):
    """Let one part be of a kind that does not exist."""
    found = {}

    def walk(x, path, name):
        if isinstance(x, dict):
            for k, v in x.items():
                walk(v, path + [k], k if k in KINDS else None)
        elif isinstance(x, list):
            for k, v in enumerate(x):
                walk(v, path + [k], name)
        elif name:
            found.setdefault((path[0], name), []).append(path)
    for part in ("materials", "sources", "probes"):
        if part in m:
            walk(m[part], [part], None)
    kinds = sorted(found)
    paths = found[kinds[int(what * len(kinds))]]
    path = paths[int(pick * len(paths))]
    x = m
    for k in path[:-1]:
        x = x[k]
    old, x[path[-1]] = x[path[-1]], x[path[-1]] + "?"
    return "/".join(map(str, path)) + f": {old} -> {old}?"


def doubled(m, pick, what):
    """A part arrives a second time, under its own name but with the content of another one."""
    lists = {"materials": m["materials"], "coordinates": m["coordinates"], "cables": m["cables"], "bundles": m["bundles"],
             "probes": m.get("probes", []), "terminations": m.get("terminations", []), "junctions": m.get("junctions", []),
             **{k: v for k, v in m["elements"].items()}}
    names = sorted(k for k in lists if lists[k])
    part = names[int(what * len(names))]
    lst = lists[part]
    a = int(pick * len(lst))
    b = int(pick * 7919 % 1 * len(lst))
    x, y = copy.deepcopy(lst[a]), copy.deepcopy(lst[b])
    if isinstance(x, str):
        y = " ".join([x.split()[0]] + y.split()[1:])
    elif part in ("terminations", "junctions"):
        y = x
    else:
        for k in ("materialId", "name"):
            if k in x:
                y[k] = x[k]
    lst.insert(int(pick * 104729 % 1 * (len(lst) + 1)), y)
    return part, y


def unmet(scn, ctx):
    """A sound description in every part, but one that asks for a source where none can act."""
    doc = copy.deepcopy(scn["doc"])
    lines = {n: i[2] for n, i in docs.by_name(doc).items()}
    if not doc["sources"]:
        ctx.nontrivial = False
        return
    at = doc["sources"][int(scn["pick"] * len(doc["sources"]))]["at"]
    if scn["what"] < 0.3:
        j = docs.render(doc, scn["perm"])
        x = [s for s in j["model"]["sources"] if s["sourceType"] == "TerminalSource"]
        x[int(scn["pick"] * len(x))]["type"] = "current"
        what = "a current source"
    else:
        ends = [at]
        for site in doc["sites"]:
            if site["kind"] == "junction":
                ends += [q for a, z in site["pairs"] if at in (a, z) for q in (a, z)]
        for name, s, c in ends:
            c0 = lines[name]["conn"][s]
            c0["vec"][c]["k"] = "Conn_short"
        if scn["what"] > 0.7 and len(ends) > 1:
            name, s, c = ends[-1]                  # what a junction cannot hold
            lines[name]["conn"][s]["vec"][c]["k"] = "Conn_C"
        j = docs.render(doc, scn["perm"])
        what = "a source on a connector without impedance"
    ctx.shape("unmet", what, scn["pick"], len(json.dumps(j)))
    ctx.fault("unmet_source")
    try:
        run(docio.parse_text(json.dumps(j)), scn["n"])
    except Exception as e:
        ctx.hit("reported_as_" + type(e).__name__)
        return
    raise Diff("silent", f"a description with {what} at {at} was accepted without a word")


def dangling(scn, ctx):
    """A part other parts refer to is lost: it must be reported, unless nothing depends on it."""
    j = docs.render(scn["doc"], scn["perm"])
    m = j["model"]
    sound = run(docio.parse_text(json.dumps(j)), scn["n"])
    if scn["mode"] == "misnamed":
        part = scn["key"]
        lost = misname(m, part, scn["pick"])
    elif scn["mode"] == "undefined":
        lost = undefined(m, scn["pick"], scn["what"])
        part = lost.split("/")[0]
    elif scn["mode"] == "doubled":
        part, lost = doubled(m, scn["pick"], scn["what"])
    else:
        part = scn["part"]
        lst = m[part] if part in m else m["elements"].get(part)
        lost = lst.pop(int(scn["pick"] * len(lst))) if lst else None
    ctx.shape(scn["mode"], part, scn["pick"], len(json.dumps(j)))
    if lost is None:
        ctx.nontrivial = False
        return
    ctx.fault({"dangling": "lost_"}.get(scn["mode"], scn["mode"] + "_") + part)
    try:
        got = run(docio.parse_text(json.dumps(j)), scn["n"])
    except Exception as e:
        ctx.hit("reported_as_" + type(e).__name__)
        return
    if got != sound:
        raise Diff("silent", f"a description {dict(dangling='without its', doubled='with a second').get(scn['mode'], 'with a wrong')} {part} {str(lost)[:120]} was accepted and gives another simulation")
    ctx.hit("nothing_depends_on_it")


def concurrent(scn, ctx):
    ts = [docs.text(scn["doc"], scn["perm"]), docs.text(scn["other"], None)]
    alone = [run(docio.parse_text(t), scn["n"]) for t in ts]
    got = [None, None]

    def body(k):
        def f():
            got[k] = run(docio.parse_text(ts[k]), scn["n"])
        return f
    s = threads.Scheduler(scn["seed"], [body(0), body(1)], scn["quantum"])
    for e in s.run():
        if e is not None:
            raise e
    ctx.fault("thread_switch", s.switches)
    ctx.shape("threads", s.switches, scn["seed"])
    for k in (0, 1):
        if got[k] != alone[k]:
            raise Diff("value", f"description {k} gives another simulation when another one is read at the same time")
    ctx.event(alone, s.switches)
    ctx.steps += 4 * scn["n"]
    ctx.nontrivial = s.switches > 0
