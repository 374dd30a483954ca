#!/usr/bin/env python3-vt
"""Checks that the tools are there and that the exporter builds; the checks rebuild it themselves."""
import tempfile, shutil, check
d = tempfile.mkdtemp()
try:
    check.export(d, check.goenv(d))
    print("ok: z3", check.z3version())
finally:
    shutil.rmtree(d)
