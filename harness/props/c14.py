"""wire order and public signals follow main (Artifacts.tla, aspects C14)"""
import artcheck
def run(c): artcheck.run(c, "C14")
