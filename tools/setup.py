"""Verifies that what the checks need is present. The checks build everything from /repo."""
import os, subprocess, sys
for path in ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/vp/env.sh"]:
    if not os.path.exists(path):
        sys.exit("missing " + path)
subprocess.run(["java", "-version"], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
