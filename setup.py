#!/usr/bin/env python3
"""Builds the harness once, so that a missing tool shows early. Checks build
what they need themselves from /repo's tree at the time."""
import check, sys
try:
    check.build("release")
    check.build("checked")
except check.NoAnswer as n:
    print(n)
    sys.exit(1)
