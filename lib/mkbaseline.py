"""Writes baseline/shape.json: the loops and parameters of every function under contract on the tree the
contracts were written for.  A refuted obligation counts as a violation only where they are unchanged."""
import json, os
import rx, check, registry
check.SHAPE_ONLY = True
out = {}
for pid, spec in sorted(registry.PROPS.items()):
    for mk in spec["proofs"]:
        p = mk()
        if p.shape:
            out[p.name] = p.shape
with open(os.path.join(rx.VERIF, "baseline/shape.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
print(sum(len(v) for v in out.values()), "functions")
