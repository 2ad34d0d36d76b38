"""Checks that the tools the checks need are there."""
import shutil, subprocess, sys
missing = [t for t in ('clang++', 'g++', 'verus', 'python3') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ' '.join(missing))
print(subprocess.run(['verus', '--version'], capture_output=True, text=True).stdout.strip())
