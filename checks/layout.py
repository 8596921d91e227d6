"""Contents of dataset folders, and what a Reader must make of them."""

from checks.common import *

STATES = ["complete", "complete", "complete", "incomplete", "ignored", "ignored-incomplete"]
JUNK = ["backout", "backout-frame", "part", "idx", "tmp", "manifest"]


def gen_folder(rng, empty_blobs=True):
    """one folder: loose blobs, or frames, with other files about"""
    f = {"blobs": [], "frames": [], "junk": []}
    kind = rng.choice(["loose", "frames", "frames", "frames", "mixed", "none"])
    blob = lambda: {"ext": rng.choice(["jsonl", "jsonl", "zstd", "parquet"]), "n": rng.choice([0, 1, 2, 5] if empty_blobs else [1, 2, 5])}
    if kind in ("loose", "mixed"):
        f["blobs"] = [blob() for _ in range(rng.choice([1, 1, 2, 4]))]
    if kind in ("frames", "mixed"):
        for at in sorted(rng.sample(range(12), rng.choice([1, 1, 2, 3, 5]))):
            f["frames"].append({"at": at, "state": rng.choice(STATES), "blobs": [blob() for _ in range(rng.choice([0, 1, 1, 2, 3]))], "junk": rng.choice([[], [], ["part"], ["idx"], ["part", "manifest"]])})
        if rng.random() < 0.2:
            # ids given by the caller: each the one before it and more
            suffix = ""
            for fr in f["frames"]:
                fr["at"] = f["frames"][0]["at"]
                fr["suffix"] = suffix
                suffix += rng.choice(["-1", "0", "-b", "a"])
    for _ in range(rng.choice([0, 0, 1, 2])):
        f["junk"].append(rng.choice(JUNK))
    return f


class Placed:
    """a folder as placed in storage"""

    def __init__(self, w, backend, path, spec, ids, stamp="20240301-1000"):
        self.w, self.backend, self.path, self.spec = w, backend, path, spec
        self.loose, self.frames = [], []
        self.records = {}
        self.has_any = False  # a data blob
        self.has_file = False  # any file outside BACKOUT
        n = 0
        for b in spec["blobs"]:
            self.loose.append(self._blob(path, n, b, ids))
            n += 1
        for f in sorted(spec["frames"], key=lambda f: (f["at"], f.get("suffix", ""))):
            name = f"{path}/as_at_{stamp}{f['at']:02d}{f.get('suffix', '')}"
            fr = {"path": name, "complete": f["state"] in ("complete", "ignored"), "ignored": f["state"].startswith("ignored"), "blobs": [], "junk": f["junk"]}
            for b in f["blobs"]:
                fr["blobs"].append(self._blob(name, n, b, ids))
                n += 1
            if fr["complete"]:
                w.put_file(backend, name + "/frame.complete")
            if fr["ignored"]:
                w.put_file(backend, name + "/frame.ignore")
            for j in f["junk"]:
                self._junk(name, j, ids)
            self.has_file = self.has_file or bool(fr["complete"] or fr["ignored"])
            if fr["blobs"] or fr["complete"] or fr["ignored"] or f["junk"]:
                self.frames.append(fr)
        for j in spec["junk"]:
            self._junk(path, j, ids)

    def _blob(self, folder, n, b, ids):
        recs = []
        for j in range(b["n"]):
            ids[0] += 1
            recs.append(rec(ids[0], "ab"[j % 2], 2))
        ext = b["ext"] if b["ext"] == "jsonl" else "jsonl." + b["ext"]
        name = f"{folder}/17b{n:04x}-2ade-fa0.{ext}"
        self.w.put_file(self.backend, name, encode(b["ext"], recs))
        self.records[name] = recs
        self.has_any = self.has_file = True
        return name

    def _junk(self, folder, kind, ids):
        ids[0] += 1
        bad = encode("jsonl", [rec(-ids[0], "bad")])
        name, data = {
            "backout": (f"{folder}/BACKOUT/17b{ids[0]:04x}-2ade-fa0.jsonl", bad),
            "backout-frame": (f"{folder}/BACKOUT/as_at_20240301-235959/17b{ids[0]:04x}-2ade-fa0.jsonl", bad),
            "part": (f"{folder}/.17b{ids[0]:04x}-2ade-fa0.jsonl.0123abcd.part", bad),
            "idx": (f"{folder}/17b{ids[0]:04x}.k.idx", b"index"),
            "tmp": (f"{folder}/17b{ids[0]:04x}.tmp", bad),
            "manifest": (f"{folder}/frame.manifest", b"{}"),
        }[kind]
        self.w.put_file(self.backend, name, data)
        self.has_file = self.has_file or not kind.startswith("backout")
        if kind == "backout-frame":
            self.w.put_file(self.backend, f"{folder}/BACKOUT/as_at_20240301-235959/frame.complete")

    def newest(self):
        for f in reversed(self.frames):
            if f["complete"] and not f["ignored"]:
                return f
        return None

    def expected(self):
        """blob names whose records a read of this folder returns"""
        if self.frames:
            f = self.newest()
            return list(f["blobs"]) if f else []
        return list(self.loose)

    def arrive(self, b, ids):
        """one more blob outside of frames"""
        self.loose.append(self._blob(self.path, len(self.records), b, ids))

    def event(self, kind, at):
        """change a marker; the change to the files is one step"""
        if not self.frames:
            return False
        f = self.frames[at % len(self.frames)]
        if kind == "complete":
            self.w.put_file(self.backend, f["path"] + "/frame.complete")
            f["complete"] = True
        elif kind == "ignore":
            self.w.put_file(self.backend, f["path"] + "/frame.ignore")
            f["ignored"] = True
        else:
            if not f["ignored"]:
                return False
            self.w.del_file(self.backend, f["path"] + "/frame.ignore")
            f["ignored"] = False
            if not (f["complete"] or f["blobs"] or f["junk"]):
                # that was its only file: there's no such frame any more
                self.frames = [x for x in self.frames if x is not f]
        return True


def injected(call):
    """the exception is one the scenario injected"""
    return not call.ok and ("injected" in str(call.exc) or isinstance(call.exc, OSError) or iskind(call, "StoreError"))


def judge_blobs(w, got, folders, extra=(), what=""):
    """
    got: records read.  folders: [(label, [alternatives])], each alternative a set of blob names.
    Every folder must have been read as one of its alternatives; nothing else may appear.
    """
    owner = {}
    recs = {}
    for label, alts, placed in folders:
        for name, rs in placed.records.items():
            recs[name] = rs
            for r in rs:
                owner[r["id"]] = name
    for placed in extra:
        for name, rs in placed.records.items():
            recs[name] = rs
            for r in rs:
                owner[r["id"]] = name
    by, order = {}, []
    for r in got:
        name = owner.get(r.get("id")) if isinstance(r, dict) else None
        if name is None:
            w.fail("invented", f"{what}a record was returned that is no folder's own data: {str(r)[:200]}")
        by.setdefault(name, []).append(r)
        order.append(name)
    for name, rs in by.items():
        if [key(r) for r in rs] != [key(r) for r in recs[name]]:
            dup = len({r["id"] for r in rs}) != len(rs)
            w.fail("repeated" if dup else "blob-differs", f"{what}{name} was returned as ids {[r['id'] for r in rs][:20]}, it holds {[r['id'] for r in recs[name]][:20]}")
    seen = set(by)
    claimed = set()
    for label, alts, placed in folders:
        mine = {n for n in seen if n in placed.records}
        claimed |= mine
        ok = False
        for a in alts:
            if mine == {n for n in a if recs[n]}:
                ok = True
        if not ok:
            w.fail("wrong-data", f"{what}folder {label}: read {sorted(mine)}, expected {' or '.join(str(sorted(a)) for a in alts)}")
    if seen - claimed:
        w.fail("out-of-range", f"{what}data of other folders was returned: {sorted(seen - claimed)[:4]}")
