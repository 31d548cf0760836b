#!/usr/bin/env python3
"""Builds the framework (harness binaries) and a first copy of /repo's tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import common, build
from checks import _arith, _tables, C10
common.pmap(lambda f: f(), [_arith.binary, _tables.binary, C10.binary])
print(build.ensure(True))
