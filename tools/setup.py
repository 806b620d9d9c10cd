import subprocess,sys,shutil
"""Nothing is prebuilt: each check compiles what it needs from /repo. Only verify that the tools are there."""
for t in ("clang-18","g++","z3-new","cvc5","perl"):
    if not shutil.which(t): sys.exit("missing tool "+t)
subprocess.run([sys.executable,"-c","import json,re,subprocess"],check=True)
print("setup ok")
