"""Unpacks the committed Hypothesis wheels into .build/vendor (idempotent, atomic)."""
import os
import sys
import tempfile
import zipfile
from pathlib import Path

root = Path(sys.argv[1])
dst = root / ".build" / "vendor"
if not (dst / "hypothesis" / "__init__.py").exists():
    (root / ".build").mkdir(exist_ok=True)
    tmp = Path(tempfile.mkdtemp(dir=root / ".build"))
    for w in sorted((root / "vendor").glob("*.whl")):
        zipfile.ZipFile(w).extractall(tmp)
    try:
        os.rename(tmp, dst)
    except OSError:  # somebody else was faster
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
