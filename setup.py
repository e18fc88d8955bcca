#!/usr/bin/env python3
"""Builds the lifter and the symbolic and native workspaces (the checks build what is missing or outdated by themselves)."""
import build as B
from groups import GROUPS

for g, c in GROUPS.items():
    for k in ("sym", "nat"):
        try:
            print(B.build(k, g, c)[0])
        except B.BuildError as e:
            print(e)
