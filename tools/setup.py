"""Nothing to build: checks that the toolchain is there and that the specification parses."""
import os, subprocess, sys
h = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tla2sany.SANY', 'Trace.tla'],
                   cwd=os.path.join(h, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(p.stdout[-300:])
sys.exit(p.returncode or not os.path.exists('/opt/venv/bin/python'))
