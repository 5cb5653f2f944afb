#!/usr/bin/env python3
"""Checks that the toolchain works; everything else is built by each check from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import tlc
from build import build
print(build().dir)
tlc.tlc('GenBase', cfg='Empty.cfg', ok=tuple(range(256)))
print('ok')
