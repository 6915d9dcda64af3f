#!/usr/bin/env python3
"""check.py <property>: decides one property (VERIF_TIER, VERIF_SEED in the environment)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    import registry_checks as m
elif prop in ("C09", "C10", "C11", "C12", "C13", "C14"):
    import concurrency_checks as m
else:
    import component_checks as m
sys.exit(m.check(prop))
