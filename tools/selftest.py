#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""setup: the engine is pure Python and needs no build; check that it loads"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from absint import driver, report, lints
print('engine loads')
