"""C01: what write_sofa acknowledged is what every later reader gets."""
import os

from .. import gen, ops
from ..kernel import Violation, must, call
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run is a seeded history of edits, writes (spelling, compression, "
        "overwrite), reads in the same and in new simulated processes, with "
        "short/interrupted transfers; non-trivial if a transfer fault fired "
        "or a file was overwritten, and its event log is distinct")
STATE = "hash of the final contents of the simulated disk"


def gen_(rng, tier, i):
    objects = [gen.gen_spec(rng, small=rng.random() < 0.7,
                            big=True) for _ in range(rng.choice([1, 2, 2]))]
    stems = rng.sample(ops.STEMS, rng.choice([1, 2, 3]))
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        k = rng.random()
        if k < 0.45 or not steps:
            steps.append({
                "do": "write", "obj": rng.randrange(len(objects)),
                "file": rng.randrange(len(stems)),
                "spell": rng.choice(ops.SPELL),
                "comp": rng.choice([0, 1, 4, 4, 9]),
                "proc": rng.random() < 0.2,
                "faults": [ops.gen_write_fault(rng, True) for _ in range(
                    rng.choice([0, 0, 1, 2]))]})
        elif k < 0.65:
            steps.append({"do": "edit", "obj": rng.randrange(len(objects)),
                          **ops.gen_edit(rng)})
        elif k < 0.8:
            steps.append({"do": "read", "file": rng.randrange(len(stems)),
                          "spell": rng.choice(ops.SPELL),
                          "verify": rng.choice(["auto", True, False]),
                          "faults": [ops.gen_write_fault(rng, True)
                                     for _ in range(rng.choice([0, 1]))]})
        elif k < 0.9:
            steps.append({"do": "rewrite", "file": rng.randrange(len(stems)),
                          "to": rng.randrange(len(stems)),
                          "verify": rng.choice(["auto", True, False]),
                          "comp": rng.choice([0, 4])})
        else:
            steps.append({"do": "copy", "obj": rng.randrange(len(objects))})
    return {"env": ops.gen_env(rng), "objects": objects, "stems": stems,
            "steps": steps}


def run(env, plan):
    objs = [must("build", gen.build, sp) for sp in plan["objects"]]
    stems = plan["stems"]
    disk = {}
    for n, st in enumerate(plan["steps"]):
        do = st["do"]
        if do == "edit":
            b = objs[st["obj"] % len(objs)] if objs else None
            if b:
                must("edit", ops.apply_edit, b, st)
                gen.same("object-content", b.model,
                         gen.content(b.sofa, b.types), "edited object")
        elif do == "copy":
            b = objs[st["obj"] % len(objs)] if objs else None
            if b:
                b.sofa = must("copy", b.sofa.copy)
        elif do == "write" and objs and stems:
            b = objs[st["obj"] % len(objs)]
            stem = stems[st["file"] % len(stems)]
            name = ops.spell(env, stem, st["spell"])

            def write():
                sofar.write_sofa(name, b.sofa, st["comp"])
            if st["faults"]:
                log = ops.dry(env, write)
                for f in st["faults"]:
                    ops.place(env, f, log)
            if st["proc"]:
                res, val = env.process(lambda: must("write", write) and None)
                if res != "done":
                    raise Violation("write-failed", f"{res} {val}")
            else:
                must("write-failed", write)
            env.disarm()
            if stem in disk:
                env.probe("nontrivial")
                env.probe("overwritten")
            disk[stem] = (dict(b.model), dict(b.types))
            env.ev("write", n, stem)
        elif do == "read" and stems:
            stem = stems[st["file"] % len(stems)]
            if stem not in disk:
                continue
            name = ops.spell(env, stem, st["spell"])
            model, types = disk[stem]

            def read():
                return sofar.read_sofa(name, st["verify"], False)
            if st["faults"]:
                log = ops.dry(env, read)
                for f in st["faults"]:
                    ops.place(env, f, log)
            s = must("read-failed", read)
            env.disarm()
            gen.same("read-back", model, gen.content(s, types),
                     f"step {n} read {stem}")
        elif do == "rewrite" and stems:
            a = stems[st["file"] % len(stems)]
            c = stems[st["to"] % len(stems)]
            if a not in disk:
                continue
            ops.spell(env, c, "plain")
            s = must("read-failed", sofar.read_sofa, ops.target(a),
                     st["verify"], False)
            must("rewrite-failed", sofar.write_sofa, ops.target(c), s,
                 st["comp"])
            disk[c] = disk[a]
            env.probe("second-generation")
    # every file, by an independent reader and by a new process
    for stem, (model, types) in sorted(disk.items()):
        r = ops.raw_check(env, stem, model, types)
        check_layout(r, stem)

        def later():
            content, s = ops.read_content(env, ops.target(stem), types, True)
            gen.same("read-back", model, content, f"later read of {stem}")
            return None
        res, val = env.process(later)
        if res != "done":
            raise Violation("read-failed", f"later read: {res} {val}")
        content, s = ops.read_content(env, ops.target(stem), types, "auto")
        gen.same("read-back", model, content, f"read of {stem}")
    env.state = "".join(sorted(env.snapshot().values()))[:64]


def check_layout(r, stem):
    """netCDF types and dimensions as AES69 demands."""
    for v, (dims, dt, data, attrs) in r["vars"].items():
        want = tuple(r["dims"][d] for d in dims)
        if data.shape != want:
            raise Violation("layout", f"{stem}: {v} {data.shape} {want}")
        if dt not in ("float64", "|S1"):
            raise Violation("layout", f"{stem}: {v} has type {dt}")
        if dt == "|S1" and "S" not in dims:
            raise Violation("layout", f"{stem}: {v} has dimensions {dims}")
    if r["dims"].get("C") != 3 or r["dims"].get("I") != 1:
        raise Violation("layout", f"{stem}: dimensions {r['dims']}")


gen_plan = gen_
