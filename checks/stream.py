"""Shared by the StreamWriter checks: drive appends, then reconstruct what was committed when, by whom."""

from dst import decode
from dst.core import NS
from checks.common import *


def key_of(name):
    return name.split("/k=")[1].split("/")[0] + ("!" if "/BACKOUT/" in name else "")


class Driver:
    """one StreamWriter with partitions k=<value> and a record of every append and commit"""

    def __init__(self, w, sc, proc=None, name="ds"):
        self.w, self.sc, self.sim = w, sc, w.sim
        self.proc = proc or w.proc("app")
        self.ds = rootdir(sc["backend"]) + "/" + name
        self.appends = []  # dict(id, k, t0, t1, s0, s1, ok, size)
        self.n = 0
        self.writer = None
        self.fin_spans = []

    def make(self):
        sc, w = self.sc, self.w
        SW = self.proc.image.get("mabel.data.StreamWriter")
        self.writer = SW(dataset=self.ds, format=sc["format"], schema=SCHEMA if sc["format"] == "parquet" or sc.get("schema") else False,
                         inner_writer=w.recording_adapter(self.proc, sc["backend"]), idle_timeout_seconds=sc["idle"],
                         writer_pool_capacity=sc["capacity"], blob_size=sc["blob_size"], date=sc.get("date", "2024-03-01"),
                         partitions=sc.get("partitions", ["day_{dd}", "k={k}"]), **w.extra(sc["backend"]))

    def setup(self):
        self.w.join(self.w.client(self.proc, self.make, "setup"))

    def append(self, ci, k, size=0):
        w, sim = self.w, self.sim
        self.n += 1
        r = rec(self.n, k, size)
        if k.endswith("!"):
            # breaks the schema: goes to a partition of its own, beside that of its value
            r = {"id": self.n, "k": k[:-1], "p": ["x" * size]}
            sim.probe("backout")
        a = {"id": self.n, "k": k, "t0": sim.now, "s0": sim.step, "t1": None, "s1": None, "ok": None, "task": sim.current.name,
             "size": len(json.dumps(r, separators=(",", ":"))) + 1, "rec": r}
        self.appends.append(a)
        sim.log("append", ci, a["id"], k)
        c = w.call(self.writer.append, dict(r))
        a["t1"], a["s1"], a["ok"] = sim.now, sim.step, c.ok
        sim.log("append.", ci, a["id"], c.ok)
        return c

    def finalize(self):
        span = [self.sim.step, None]
        self.fin_spans.append(span)
        c = self.w.call(self.writer.finalize)
        span[1] = self.sim.step
        self.sim.log("finalize", c.ok)
        return c

    def commits(self):
        """every successful commit of a data blob, in order of completion"""
        res = []
        for c in getattr(self.sim, "commits", []):
            if not c["ok"]:
                continue
            name = self.w.full_name(self.sc["backend"], c["name"])
            if not name.startswith(self.ds + "/") or not decode.is_data(name):
                continue
            records = decode.decode(name, c["data"])
            if records is None:
                self.w.fail("bad-blob", f"committed blob {name} is not readable")
            res.append({**c, "name": name, "records": records, "key": key_of(name)})
        return sorted(res, key=lambda c: c["s1"])
