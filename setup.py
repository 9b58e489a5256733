#!/usr/bin/env python3
"""setup_cmd: nothing has to be prebuilt (every check builds from /repo itself); verifies the tools."""
import os, subprocess, sys
for c in (["/usr/bin/clang++-18", "--version"],):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode != 0:
        sys.exit("missing tool: " + c[0])
for p in ("/usr/include/eigen3/Eigen/Core", "/usr/include/boost/shared_ptr.hpp", "/usr/include/msgpack.hpp"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
print("ok")
