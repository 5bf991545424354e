#!/usr/bin/env python3
"""Builds the facts extractor (driver/main.rs) into build/."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rules"))
sys.dont_write_bytecode = True
import common
print(common.driver())
