"""Outcomes of the dump corpus as JSON (run with different hash seeds)."""
import json

from mc import checks_hist as H

print(json.dumps({repr((t, c)): repr(H.ref_one(t, c)) for t in H.DUMP for c in range(len(H.CONFIGS))}))
