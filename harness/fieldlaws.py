"""Exhaustive TLC check of the field semantics itself (spec/FieldCheck.tla)."""
import tlc
def run(c, primes=("3", "5", "7", "11", "13")):
    for mode in ("laws", "override"):
        r = tlc.run("FieldCheck", env=dict(MODE=mode), big=(mode == "override"))
        c.tlc(r)
        c.count("field_law_states", r.distinct)
