#!/usr/bin/env python3
"""check.py <property> [quick or thorough; VERIF_TIER, if set, decides] : decides one property on the current tree of /repo.
exit 0 held on everything explored | 1 violated (VIOLATION line) | 2 the check itself failed"""
import sys, os, time, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import circ, ctx, tlc

def main():
    pid = sys.argv[1]
    c = ctx.Ctx(pid)
    try:
        mod = importlib.import_module("props." + pid.lower())
        circ.scratch()
        tlc.build_java()
        circ.build()
        mod.run(c)
        rc = c.finish()
    except circ.ToolError as e:
        print("TOOL ERROR", e); rc = c.finish(tool_error=str(e))
    except Exception:
        traceback.print_exc(); rc = c.finish(tool_error=traceback.format_exc())
    finally:
        circ.cleanup()
    sys.exit(rc)
main()
