#!/usr/bin/env python3
"""Nothing to build: checks that the tools the analysis needs are there and that the engine's self-test holds."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from nzsa import build
for exe in (build.CLANG, build.OPT, "/usr/bin/g++"):
    if not os.path.exists(exe): sys.exit("missing " + exe)
import ctypes
from nzsa import llvmc
print("ok", build.CLANG)
