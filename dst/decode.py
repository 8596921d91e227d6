"""Independent decoders used by oracles (never mabel's own)."""

import io
import json

import zstandard

DATA = (".jsonl", ".zstd", ".parquet", ".txt", ".json", ".csv", ".lzma", ".zip", ".xml", ".lxml")


def is_data(name):
    return name.endswith(DATA)


def unzstd(data):
    """all of the frames, whichever way they were written; raises if one is cut"""
    out = b""
    while data:
        d = zstandard.ZstdDecompressor().decompressobj()
        out += d.decompress(data)
        if not d.eof:
            raise ValueError("the last frame is not whole")
        data = d.unused_data
    return out


def decode(name, data):
    """list of records, or None if the blob is not a whole, well-formed blob"""
    try:
        if name.endswith(".parquet"):
            import pyarrow.parquet as pq

            return pq.read_table(io.BytesIO(data), use_threads=False).to_pylist()
        if name.endswith(".zstd"):
            data = unzstd(data)
        if name.endswith(".txt"):
            if data and not data.endswith(b"\n"):
                return None
            return data.decode("utf8").split("\n")[:-1]
        if data and not data.endswith(b"\n"):
            return None
        return [json.loads(line) for line in data.split(b"\n")[:-1]]
    except Exception:
        return None


def raw_size(name, data):
    """bytes of serialised records in a text blob"""
    if name.endswith(".zstd"):
        return len(unzstd(data))
    return len(data)
