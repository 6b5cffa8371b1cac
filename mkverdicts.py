"""Writes sim/verdicts.json: what the released schema versions say about the documents V01.golden(0..).

Run once on the commit the project started from; released schema versions do not change."""
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lxml.etree as E  # noqa: E402
from sim.worlds import V01  # noqa: E402
from sim import ops  # noqa: E402

S = [E.XMLSchema(E.parse(f"/repo/src/svdsuite/schema/{v}.xsd")) for v in ops.VERSIONS]
out = {}
for g in range(V01.GOLDEN):
    b = V01.golden(g)["raw"].encode()
    try:
        t = E.fromstring(b).getroottree()
    except E.XMLSyntaxError:
        continue
    out[hashlib.sha256(b).hexdigest()[:16]] = "".join("01"[s.validate(t)] for s in S)
with open(os.path.join(HERE, "sim", "verdicts.json"), "w") as f:
    json.dump({"versions": ops.VERSIONS, "newest": "1.3.11", "docs": out}, f, indent=0)
cols = list(zip(*out.values()))
print(len(out), [(v, c.count("1")) for v, c in zip(ops.VERSIONS, cols)], "distinct columns", len(set(cols)))
