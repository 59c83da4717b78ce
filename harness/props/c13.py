"""r1cs, sym, json and witness files of the same program agree (Artifacts.tla, aspects C13)"""
import artcheck
def run(c): artcheck.run(c, "C13")
