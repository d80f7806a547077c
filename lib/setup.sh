#!/bin/bash
# builds the framework: extractor, expanded sources, native drivers, Kani packages
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import rx, nat, kani, os
import registry
rx.extractor(); rx.expand()
for g in sorted({n.group for p in registry.PROPS.values() for n in p.get("native", [])}):
    b, why = nat.build(g)
    print("native", g, "ok" if b else why)
for m in registry.KANI_MODULES:
    r = kani.run(m, registry.KANI_MODULES[m][:1], timeout=900)
    print("kani", m, {k: v["status"] for k, v in r[0].items()})
P
