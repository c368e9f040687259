"""Warms the Go build cache for the engines (everything is rebuilt by each check anyway)."""
import os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import engines
b = tempfile.mkdtemp(prefix="mc-setup-")
try:
    for e in sorted({e for v in engines.ENGINES.values() for e in v}):
        engines.prepare(e, b, os.environ.get("MC_REPO", "/repo"), V)
finally:
    shutil.rmtree(b, ignore_errors=True)
