"""Nothing to build: check that the code under test and its runtime import, and that the folder for
evidence can be written."""
import os

from mc import boot  # noqa: F401
from mc.core import EVID
from mc.registry import REG

os.makedirs(EVID, exist_ok=True)
print("ok", len(REG), "checks")
