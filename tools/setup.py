#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs (each check compiles its driver from /repo's
working tree); this only makes sure the tools are there."""
import os, shutil, sys
need = ["g++", "java", "python3"]
miss = [t for t in need if not shutil.which(t)]
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/usr/include/eigen3/Eigen/Core"):
    if not os.path.exists(f): miss.append(f)
if miss: sys.exit("missing: " + ", ".join(miss))
print("ok")
