"""Imports the code under test from the working tree, behind the seams.  Import this before anything of svdsuite."""
import gc
import importlib
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("SIM_REPO", "/repo")
os.environ["SIM_SRC"] = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(REPO, "src")]

# everything the code under test depends on is loaded before the lock patch, with real locks
for m in ("lxml.etree", "rustworkx", "rustworkx.visualization", "rustworkx.visualization.graphviz", "packaging.version",
          "tempfile", "subprocess", "logging", "concurrent.futures.thread", "queue", "json", "html", "uuid", "shutil",
          "xml.etree.ElementTree", "xml.parsers.expat", "pathlib", "hashlib", "random", "pickle", "datetime", "weakref",
          "contextvars", "contextlib", "functools", "encodings.utf_16", "encodings.latin_1", "encodings.cp1252",
          "encodings.utf_8_sig", "encodings.ascii"):
    try:
        importlib.import_module(m)
    except ImportError:
        pass

from sim import sched  # noqa: E402

sched.patch_locks()
import svdsuite  # noqa: E402
from svdsuite.resolve import agenda as repo_agenda  # noqa: E402

assert os.path.realpath(svdsuite.__file__).startswith(sched.SRC), svdsuite.__file__
sched.capture_warnings()
gc.collect()
gc.disable()
