#!/usr/bin/env python3
"""Builds the C++ fact extractor and warms its cache."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib.cxxfront import build_tool, CxxProgram
from lib.report import REPO
build_tool()
print(len(CxxProgram(REPO).funcs), "functions extracted")
