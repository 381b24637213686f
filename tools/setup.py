#!/usr/bin/env python3
"""Nothing has to be installed: verifies that the tools the checks need are there."""
import shutil, sys, os
missing = [t for t in ("java", "g++", "python3") if not shutil.which(t)]
missing += [f for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(f)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")
