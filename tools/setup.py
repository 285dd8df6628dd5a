"""Nothing has to be built: checks that the tools the checks need are there."""
import os
import subprocess
import sys

for path in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(path):
        sys.exit(f'{path} is missing')
subprocess.run(['java', '-version'], check=True, stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'evidence'), exist_ok=True)
