#!/usr/bin/env python3
"""setup: nothing is installed; only checks that the tools the checks use are there."""
import os, shutil, sys
need = ["gcc-11", "g++-11", "java", "bash"]
miss = [n for n in need if not shutil.which(n)] + [f for f in ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"] if not os.path.exists(f)]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)
