"""main.py check <ID> <tier> <seed> <home> | replay <file> | digest <ID> <seed> <lo> <hi> | list"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import drivers  # noqa: E402
import oracles  # noqa: E402
import regions  # noqa: E402

PROPS = {m.PROP["id"]: m.PROP for m in (drivers, regions, oracles)}
a = sys.argv[1:]
if a[0] == "check":
    sys.exit(core.check(PROPS[a[1]], a[2], int(a[3]), a[4]))
if a[0] == "replay":
    sys.exit(core.replay(PROPS, a[1]))
if a[0] == "digest":
    sys.exit(core.digest(PROPS[a[1]], int(a[2]), int(a[3]), int(a[4])))
print("\n".join(PROPS))
