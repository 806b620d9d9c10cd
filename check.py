#!/usr/bin/env python3
"""check.py PXX  - run the check of one property;  check.py --replay FILE"""
import sys, os, json, importlib, subprocess
V=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[os.path.join(V,"engine"),os.path.join(V,"checks")]
sys.dont_write_bytecode=True
import irx
def main():
    if sys.argv[1]=="--replay":
        r=json.load(open(sys.argv[2]))
        if "scheme_harness" in r:
            import scm; rc,out=scm.guile(r["scheme_harness"],r["args"],r["values"]); print(out); return rc
        exe=irx.build(r["harness"],r["config"],r["repo_sources"],r["harness_sources"],tuple(r["flags"])+("-DSR_NATIVE",),tuple(r["export"]),False,True)
        fn=exe+".vals"; open(fn,"w").write("".join("%s %.17g\n"%(k,v) for k,v in r["values"].items()))
        rc=subprocess.run([exe,fn]+r["args"],env=dict(os.environ,**{k:str(v) for k,v in r["env"].items()})).returncode; irx.cleanup(); return rc
    m=importlib.import_module(sys.argv[1])
    try: return m.main()
    finally: irx.cleanup()
sys.exit(main())
