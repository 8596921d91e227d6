"""Shared generators and oracles."""

import io
import json

from dst.runner import dst_tz  # noqa: F401
from dst.runner import swarm  # noqa: F401

SCHEMA = [{"name": "id", "type": "INTEGER"}, {"name": "k", "type": "VARCHAR"}, {"name": "p", "type": "VARCHAR"}]


def rec(i, k, size=0):
    return {"id": i, "k": k, "p": "x" * size}


class Model:
    """a record of a data class library: anything with a dict()"""

    def __init__(self, values):
        self._values = dict(values)


class DictModel(Model):
    def dict(self):
        return dict(self._values)


class OldBaseModel(DictModel):
    """as pydantic 1's"""


class NewBaseModel(Model):
    """as pydantic 2's"""

    def model_dump(self):
        return dict(self._values)


class BothBaseModel(NewBaseModel):
    def dict(self):
        return self.model_dump()

    def model_dump(self):
        return dict(self._values)


class Mini(dict):
    """a record which knows its own JSON, as those of simdjson do"""

    @property
    def mini(self):
        return json.dumps(self, separators=(",", ":")).encode()


MODELS = {"dict": DictModel, "v1": OldBaseModel, "v2": NewBaseModel, "both": BothBaseModel, "mini": Mini}


def key(record):
    return json.dumps(record, sort_keys=True)


def store_faults(rng, n, sites=("before", "after", "slow"), span=12, maxtimes=3):
    out = []
    for _ in range(n):
        kind = rng.choice(sites)
        f = {"site": "put", "kind": kind, "nth": rng.randrange(span), "times": rng.choice([1, 1, 1, 2, maxtimes])}
        if kind == "slow":
            f["delay_ns"] = rng.choice([50_000_000, 500_000_000, 5_000_000_000, 40_000_000_000])
        else:
            f["exc"] = rng.choice(["StoreError", "OSError", "ConnectionResetError", "TimeoutError"])
        out.append(f)
    return out


def disk_faults(rng, n, span=10, crash=False):
    out = []
    for _ in range(n):
        site = rng.choice(["disk.write", "disk.write", "disk.open_w", "disk.mkdir", "disk.rename"])
        kinds = ["eio", "enospc"]
        if crash:
            kinds += ["crash"] * 3
        kind = rng.choice(kinds)
        if site == "disk.write" and kind == "crash":
            kind = "torncrash"
        f = {"site": site, "kind": kind, "nth": rng.randrange(span), "times": rng.choice([1, 1, 1, 2])}
        if site == "disk.write":
            f["frac"] = rng.choice([0, 0.1, 0.5, 0.9, 1.0])
            if rng.random() < 0.2:
                f.update(kind="short", times=rng.choice([1, 3]), line=rng.random() < 0.5)
        out.append(f)
    return out


def fault_kinds_before_only(faults):
    return all(f.get("kind") not in ("after",) for f in faults)


def count_ids(blobs):
    """{id: [blob names]} over decoded blobs; None for undecodable"""
    out = {}
    bad = []
    for name, records in blobs:
        if records is None:
            bad.append(name)
            continue
        for r in records:
            out.setdefault(r.get("id") if isinstance(r, dict) else r, []).append((name, r))
    return out, bad


def rootdir(backend):
    return "data" if backend == "disk" else "bucket"


def open_reader(w, proc, backend, dataset, **kw):
    Reader = proc.image.get("mabel.data.Reader")
    args = dict(w.extra(backend))
    args.update(kw)
    return Reader(dataset=dataset, inner_reader=w.reader_adapter(proc, backend), **args)


def read_all(w, proc, backend, dataset, **kw):
    """Call whose value is the list of records read"""
    return w.call(lambda: [plain(r) for r in open_reader(w, proc, backend, dataset, **kw)])


def plain(r):
    if isinstance(r, dict):
        return r
    if hasattr(r, "as_dict"):
        return r.as_dict
    return r


def keys_of(records):
    return [key(r) for r in records]


def iskind(call, name):
    """the call raised an exception of the class called `name` (classes differ per process image)"""
    return not call.ok and any(c.__name__ == name for c in type(call.exc).__mro__)


def diff(got, want, n=6):
    """short description of how two lists of keys differ"""
    from collections import Counter

    a, b = Counter(got), Counter(want)
    missing, extra = list((b - a).elements()), list((a - b).elements())
    if not missing and not extra:
        for i, (x, y) in enumerate(zip(got, want)):
            if x != y:
                return f"order differs at {i}: got {str(x)[:200]}, expected {str(y)[:200]}"
        return "equal"
    missing, extra = [str(x)[:200] for x in missing], [str(x)[:200] for x in extra]
    return f"missing {missing[:n]} ({len(missing)}), unexpected {extra[:n]} ({len(extra)})"


def encode(ext, records):
    """bytes of a blob holding the records; ext: jsonl zstd lzma zip json parquet"""
    if ext == "parquet":
        import pyarrow as pa
        import pyarrow.parquet as pq

        t = pa.table({"id": pa.array([r["id"] for r in records], pa.int64()), "k": pa.array([r["k"] for r in records], pa.string()),
                      "p": pa.array([r["p"] for r in records], pa.string())})
        out = io.BytesIO()
        pq.write_table(t, out)
        return out.getvalue()
    body = b"".join(json.dumps(r).encode() + b"\n" for r in records)
    if ext == "json":
        return json.dumps(records[0]).encode()
    if ext == "zstd":
        import zstandard

        return zstandard.compress(body)
    if ext == "lzma":
        import lzma

        return lzma.compress(body)
    if ext == "zip":
        import zipfile

        out = io.BytesIO()
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(zipfile.ZipInfo("part.jsonl", (2024, 3, 1, 0, 0, 0)), body)
        return out.getvalue()
    return body
