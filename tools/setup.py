"""Build the harness crate (and pomelo with it) and make sure that TLC and rustc work."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pom      # noqa: E402
print(pom.build())
subprocess.run(['java', '-version'], check=True, capture_output=True)
assert os.path.exists(pom.JARS.split(':')[0])
