"""setup: nothing to build; fail early if the interpreter the checks use is not there"""
import os
import subprocess
import sys

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.exit(subprocess.call([PY, "-c", "import orjson, orso, zstandard, pyarrow, xxhash, bitarray; print('ok')"]))
