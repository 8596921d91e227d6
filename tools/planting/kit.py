"""helpers for the demonstrations: mabel from the working directory, storage in a dict"""
import datetime
import json
import os
import shutil
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

CLOCK = [None]  # seconds added to the wall clock, when the demonstration moves it
_real_datetime = datetime.datetime


class _Clock(_real_datetime):
    @classmethod
    def utcnow(cls):
        return _real_datetime.utcfromtimestamp(time.time() + CLOCK[0])

    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(time.time() + CLOCK[0], tz)


def at(text):
    """set the wall clock"""
    t = _real_datetime.fromisoformat(text + "+00:00").timestamp()
    CLOCK[0] = t - time.time()


if os.environ.get("DEMO_CLOCK"):
    CLOCK[0] = 0
    datetime.datetime = _Clock
os.environ.pop("STORAGE_EMULATOR_HOST", None)

from mabel.data.readers.internals.base_inner_reader import BaseInnerReader
from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter

BLOBS = {}
HOOKS = {}
COMMITS = []


class MemWriter(BaseInnerWriter):
    def commit(self, byte_data, override_blob_name=None):
        name = override_blob_name or self._build_path()
        if "commit" in HOOKS:
            HOOKS["commit"](name, byte_data)
        BLOBS[name] = bytes(byte_data)
        COMMITS.append(name)
        if "committed" in HOOKS:
            HOOKS["committed"](name, byte_data)
        return name


class MemReader(BaseInnerReader):
    def get_blobs_at_path(self, path):
        return [b for b in sorted(BLOBS) if b.startswith(str(path).rstrip("/") + "/")]

    def get_blob_bytes(self, name):
        if "read" in HOOKS:
            HOOKS["read"](name)
        return BLOBS[name]


def stored(prefix=""):
    """records of the jsonl blobs, in name order"""
    return [json.loads(l) for n in sorted(BLOBS) if n.startswith(prefix) and n.endswith(".jsonl") for l in BLOBS[n].splitlines()]


def read(**kw):
    from mabel.data import Reader

    kw.setdefault("inner_reader", MemReader)
    kw.setdefault("dataset", "bucket/ds")
    kw.setdefault("start_date", "2024-03-01")
    kw.setdefault("end_date", kw["start_date"])
    return Reader(**kw)


def scratch():
    import atexit

    d = tempfile.mkdtemp(prefix="demo-")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


def check(ok, text):
    if not ok:
        print("FAILED:", text)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
