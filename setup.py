#!/usr/bin/env python3
"""Builds the framework: the Java override of BigInt and circom's debug binary."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import tlc, circ
tlc.build_java(); circ.build()
print("ready")
