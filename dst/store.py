"""
Simulated object store, and in-image adapters over it: a plain one (SimWriter/SimReader),
a fake google.cloud.storage client and a fake minio client.
Puts are atomic and immediately visible; listings are consistent snapshots.
"""

import io
import itertools
import types

from .core import Sim
from .core import SimCrash
from .seams import cur


class CurrentStore:
    """the store of the run in progress"""

    def __getattr__(self, name):
        s = Sim.current_sim
        if s is None:
            raise SimCrash()
        return getattr(s.store, name)


CURRENT = CurrentStore()


class StoreError(Exception):
    """an injected storage failure"""


class ObjStore:
    def __init__(self, sim, latency_ns=0):
        self.sim = sim
        self.blobs = {}
        self.attempts = []  # every put that was tried
        self.puts = []  # every applied put: dict(step, now, proc, name, data, prev)
        self.latency_ns = latency_ns
        self.put_in_flight = 0

    # --- client operations (with yield points and faults)
    def _wait(self, s):
        if self.latency_ns:
            # deterministic spread
            s.sleep_ns((s.step * 2654435761) % self.latency_ns + 1)

    def put(self, name, data, owner=None, errors=None):
        s = cur()
        if s is None or (owner is not None and owner.dead) or s.current.proc.dead:
            raise SimCrash()
        data = bytes(data)
        s.log("put", name, len(data))
        s.io_point("put")
        self._wait(s)
        f = s.fault("put")
        if f is None:
            # faults of a folder: put@<part of the name>
            for site in sorted({x["site"] for x in s.faults if x["site"].startswith("put@")}):
                if site[4:] in "/" + name:
                    f = f or s.fault(site)
        k = f.get("kind") if f else None
        self.attempts.append({"step": s.step, "now": s.now, "task": s.current.name, "name": name, "kind": k, "exc": f.get("exc") if f else None})
        if k:
            s.log("fault", "put", k, name)
        if k == "slow":
            s.sleep_ns(int(f.get("delay_ns", 10**9)))
        if k == "before":
            raise self._error(f, errors)
        if k == "crash_before":
            s.kill(s.current.proc)
            raise SimCrash()
        if owner is not None and owner.dead:
            raise SimCrash()
        self.puts.append({"step": s.step, "now": s.now, "proc": s.current.proc.name, "task": s.current.name,
                          "name": name, "data": data, "prev": self.blobs.get(name), "ack": None})
        rec = self.puts[-1]
        self.blobs[name] = data
        s.log("put_applied", name, len(data))
        s.io_point("put.")
        if k == "after":
            raise self._error(f, errors)
        if k == "crash_after":
            s.kill(s.current.proc)
            raise SimCrash()
        rec["ack"] = s.step
        s.log("put_ack", name)

    def get(self, name, errors=None):
        s = cur()
        if s is None or s.current.proc.dead:
            raise SimCrash()
        s.io_point("get")
        self._wait(s)
        f = s.fault("get")
        k = f.get("kind") if f else None
        if k is None:
            f = s.fault("get:" + name)
            k = f.get("kind") if f else None
        if k:
            s.log("fault", "get", k, name)
        if k == "slow":
            s.sleep_ns(int(f.get("delay_ns", 10**9)))
        if k == "before":
            s.failed_gets.append(name)
            raise self._error(f, errors)
        data = self.blobs.get(name)
        if k == "vanish":
            data = None
        if data is None:
            s.failed_gets.append(name)
            raise KeyError(name)
        s.log("get", name, len(data))
        s.io_point("get.")
        if k == "truncate":
            data = data[: int(len(data) * f.get("frac", 0.5))]
            s.truncated_gets.append(name)
        return data

    def list(self, prefix):
        s = cur()
        if s is None or s.current.proc.dead:
            raise SimCrash()
        s.io_point("list")
        self._wait(s)
        f = s.fault("list")
        if f is not None and f.get("kind") == "before":
            raise StoreError("injected list failure")
        names = sorted(n for n in self.blobs if n.startswith(prefix))
        s.log("list", prefix, len(names))
        s.io_point("list.")
        return names

    def delete(self, name):
        s = cur()
        if s is None or s.current.proc.dead:
            raise SimCrash()
        s.io_point("delete")
        self._wait(s)
        if name not in self.blobs:
            raise KeyError(name)
        del self.blobs[name]
        s.log("delete", name)
        s.io_point("delete.")

    def _error(self, f, errors):
        kind = f.get("exc", "StoreError")
        if errors and kind in errors:
            return errors[kind]()
        return {"StoreError": StoreError("injected"), "OSError": OSError(5, "injected"),
                "ConnectionResetError": ConnectionResetError("injected"),
                "MemoryError": MemoryError("injected"), "TimeoutError": TimeoutError("injected")}.get(kind, StoreError("injected"))

    # --- oracle access (no yield points)
    def names(self, prefix=""):
        return sorted(n for n in self.blobs if n.startswith(prefix))


def adapters(image, store=CURRENT):
    """SimWriter / SimReader for one process image"""
    BaseInnerWriter = image.get("mabel.data.writers.internals.base_inner_writer.BaseInnerWriter")
    BaseInnerReader = image.get("mabel.data.readers.internals.base_inner_reader.BaseInnerReader")

    class SimWriter(BaseInnerWriter):
        def __init__(self, **kwargs):
            super().__init__(**kwargs)
            s = cur()
            self._owner = s.current.proc if s else None

        def commit(self, byte_data, override_blob_name=None):
            blob_name = override_blob_name if override_blob_name else self._build_path()
            store.put(blob_name, byte_data, owner=self._owner)
            return blob_name

    class SimReader(BaseInnerReader):
        def get_blobs_at_path(self, path):
            prefix = str(path)
            if not prefix.endswith("/"):
                prefix += "/"
            return store.list(prefix)

        def get_blob_bytes(self, blob):
            return store.get(blob)

    return SimWriter, SimReader


# ------------------------------------------------------------------ google.cloud.storage
def gcs_errors():
    from google.api_core import exceptions as g
    from urllib3.exceptions import ProtocolError

    return {"ConnectionResetError": lambda: ConnectionResetError("injected"),
            "ProtocolError": lambda: ProtocolError("injected"),
            "InternalServerError": lambda: g.InternalServerError("injected"),
            "TooManyRequests": lambda: g.TooManyRequests("injected"),
            "Forbidden": lambda: g.Forbidden("injected"),
            "NotFound": lambda: g.NotFound("injected"),
            "ValueError": lambda: ValueError("injected")}


class GcsBlob:
    def __init__(self, bucket, name):
        self.bucket = bucket
        self.name = name

    @property
    def _full(self):
        return self.bucket.name + "/" + self.name

    @property
    def size(self):
        data = self.bucket.client._store.blobs.get(self._full)
        return None if data is None else len(data)

    def upload_from_string(self, data, content_type="text/plain", retry=None, if_generation_match=None, **kw):
        if isinstance(data, str):
            data = data.encode()
        store = self.bucket.client._store

        def upload():
            if if_generation_match == 0 and self._full in store.blobs:
                from google.api_core import exceptions as g

                raise g.PreconditionFailed("the object exists")
            store.put(self._full, data, errors=gcs_errors())

        (retry(upload) if retry is not None else upload)()

    def upload_from_file(self, f, rewind=False, size=None, **kw):
        if rewind:
            f.seek(0)
        self.upload_from_string(f.read() if size is None else f.read(size), **kw)

    def upload_from_filename(self, filename, **kw):
        with open(filename, "rb") as f:
            self.upload_from_file(f, **kw)

    def download_as_bytes(self, start=None, end=None, **kw):
        try:
            data = self.bucket.client._store.get(self._full, errors=gcs_errors())
        except KeyError:
            raise gcs_errors()["NotFound"]()
        return data if start is None and end is None else data[start or 0: None if end is None else end + 1]

    download_as_string = download_as_bytes

    def download_as_text(self, encoding="utf-8", **kw):
        return self.download_as_bytes(**kw).decode(encoding)

    def download_to_file(self, f, **kw):
        f.write(self.download_as_bytes(**kw))

    def open(self, mode="r", **kw):
        if "w" in mode:
            raise NotImplementedError("simulated blobs are opened for reading only")
        data = io.BytesIO(self.download_as_bytes())
        return data if "b" in mode else io.TextIOWrapper(data)

    def reload(self, **kw):
        if not self.exists():
            raise gcs_errors()["NotFound"]()

    def delete(self, **kw):
        try:
            self.bucket.client._store.delete(self._full)
        except KeyError:
            raise gcs_errors()["NotFound"]()

    def exists(self, **kw):
        cur().io_point("gcs.exists")
        return self._full in self.bucket.client._store.blobs


class GcsBucket:
    def __init__(self, client, name):
        self.client = client
        self.name = name

    def blob(self, name, **kw):
        return GcsBlob(self, name)

    def get_blob(self, name, **kw):
        s = cur()
        s.io_point("gcs.get_blob")
        if self.name + "/" + name not in self.client._store.blobs:
            return None
        return GcsBlob(self, name)

    def list_blobs(self, **kw):
        return self.client.list_blobs(self, **kw)

    def delete_blob(self, name, **kw):
        GcsBlob(self, name).delete()

    def delete_blobs(self, blobs, **kw):
        for b in blobs:
            self.delete_blob(b if isinstance(b, str) else b.name)

    def exists(self, **kw):
        return True


class GcsIterator:
    """what list_blobs returns: an iterator with the folders found when a delimiter was given"""

    def __init__(self, items, prefixes):
        self._items = iter(items)
        self._prefixes = prefixes
        self.prefixes = set()
        self.num_results = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.prefixes = self._prefixes  # known once pages have been fetched
        item = next(self._items)
        self.num_results += 1
        return item

    @property
    def pages(self):
        while True:
            page = list(itertools.islice(self, 1000))
            if not page:
                return
            yield page


def gcs_module(store=CURRENT):
    class Client:
        def __init__(self, project=None, credentials=None, **kw):
            self._store = store

        def get_bucket(self, name, **kw):
            s = cur()
            s.io_point("gcs.get_bucket")
            return GcsBucket(self, name)

        lookup_bucket = get_bucket

        def bucket(self, name, **kw):
            return GcsBucket(self, name)

        def list_blobs(self, bucket_or_name, prefix=None, max_results=None, delimiter=None, start_offset=None, end_offset=None, **kw):
            b = bucket_or_name if isinstance(bucket_or_name, GcsBucket) else GcsBucket(self, bucket_or_name)
            full = b.name + "/" + (prefix or "")
            names = [n[len(b.name) + 1:] for n in store.list(full)]
            names = [n for n in names if (start_offset is None or n >= start_offset) and (end_offset is None or n < end_offset)]
            prefixes = set()
            if delimiter:
                start = len(prefix or "")
                prefixes = {n[:n.index(delimiter, start) + 1] for n in names if delimiter in n[start:]}
                names = [n for n in names if delimiter not in n[start:]]
            return GcsIterator([GcsBlob(b, n) for n in names[:max_results]], prefixes)

    m = types.ModuleType("google.cloud.storage")
    m.Client = Client
    m.Bucket = GcsBucket
    m.Blob = GcsBlob
    return m


# ------------------------------------------------------------------ minio
def minio_module(store=CURRENT):
    class Obj:
        def __init__(self, name):
            self.object_name = name
            self.is_dir = name.endswith("/")

    class Resp:
        def __init__(self, data, name):
            self.data = data
            self.name = name
            self.closed = False

        def read(self, amt=None):
            if self.closed:
                raise ValueError("I/O operation on closed response")
            f = cur().fault("body:" + self.name)
            if f is not None:
                cur().failed_gets.append(self.name)
                raise store._error(f, errs())
            if amt is None:
                amt = len(self.data)
            d, self.data = self.data[:amt], self.data[amt:]
            return d

        @property
        def status(self):
            return 200

        def stream(self, amt=32 * 1024, **kw):
            while self.data:
                yield self.read(amt)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.closed = True

        def release_conn(self):
            pass

    def errs():
        return {"S3Error": lambda: RuntimeError("injected S3Error"), "StoreError": lambda: StoreError("injected"),
                "ConnectionResetError": lambda: ConnectionResetError("injected")}

    class Minio:
        def __init__(self, endpoint, access_key=None, secret_key=None, secure=True, **kw):
            pass

        def put_object(self, bucket_name, object_name, data, length, **kw):
            body = data.read(length) if length >= 0 else data.read()
            store.put(bucket_name + "/" + object_name, body, errors=errs())

        def list_objects(self, bucket_name, prefix=None, recursive=False, start_after=None, **kw):
            full = bucket_name + "/" + (prefix or "")
            names = [n[len(bucket_name) + 1:] for n in store.list(full)]
            if start_after:
                names = [n for n in names if n > start_after]
            if not recursive:
                start = len(prefix or "")
                names = sorted({n if "/" not in n[start:] else n[:n.index("/", start) + 1] for n in names})
            return iter([Obj(n) for n in names])

        def get_object(self, bucket_name, object_name, offset=0, length=0, **kw):
            try:
                data = store.get(bucket_name + "/" + object_name, errors=errs())
                return Resp(data[offset:offset + length] if length else data[offset:], bucket_name + "/" + object_name)
            except KeyError:
                raise RuntimeError("NoSuchKey " + object_name)

        def remove_object(self, bucket_name, object_name, **kw):
            try:
                store.delete(bucket_name + "/" + object_name)
            except KeyError:
                pass  # as MinIO: removing what isn't there succeeds

        def stat_object(self, bucket_name, object_name, **kw):
            if bucket_name + "/" + object_name not in store.blobs:
                raise RuntimeError("NoSuchKey")
            return Obj(object_name)

        def bucket_exists(self, b):
            return True

        def make_bucket(self, b, **kw):
            pass

    m = types.ModuleType("minio")
    m.Minio = Minio
    return m
