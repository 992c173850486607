"""Builds the instrumented library once (the checks rebuild what changed, or everything in a fresh copy)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
B.build("asan", [os.path.join(B.VERIF, "harness", "vt_main.cpp"), os.path.join(B.VERIF, "harness", "variables.cpp")], "v01",
        extra_flags=["-DFOCUS=1"])
