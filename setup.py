"""Builds the harness once (every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common
try:
    common.build()
    common.build_py()
    import fam_equiv
    fam_equiv.build_all(["argmin,rayon", "argmin,checkpointing", "argmin", "rayon,checkpointing",
                         "argmin,rayon,checkpointing,progress_bar"])
except common.ToolError as e:
    # a check reports this itself
    print(e)
