"""replay.py FILE: runs the failing input of a violation against the real code again."""
import json, os, sys
import rx, nat
r = json.load(open(sys.argv[1]))
if r["kind"] != "input":
    print("no input: obligation %s in %s\n%s" % (r["obligation"], r["function"], r["verifier_output"]))
    sys.exit(1)
b, why = nat.build(r["driver"])
if not b:
    print(why)
    sys.exit(2)
p = os.path.join(rx.BUILD, "replay.bin")
open(p, "wb").write(bytes.fromhex(r["case"]))
rc, o, e, t = rx.sh([b, r["mode"], "replay", p], timeout=30, env={"VDRV_PANIC": "1"})
print(o + e)
sys.exit(1 if rc else 0)
