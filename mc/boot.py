"""Import the code under test from the working tree (never from stale bytecode)."""
import os
import sys

SRC = os.path.abspath(os.environ.get("FCSQL_SRC", "/repo/src"))
sys.dont_write_bytecode = True
# a prefix that does not exist: existing __pycache__ files are ignored, sources are compiled afresh
sys.pycache_prefix = "/nonexistent-pycache"
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)

import fcsql  # noqa: E402
import fcsql.parser  # noqa: E402
import fcsql.validation  # noqa: E402

if not os.path.abspath(fcsql.__file__).startswith(SRC + os.sep):
    raise SystemExit(f"fcsql imported from {fcsql.__file__}, expected below {SRC}")
