#!/bin/bash
# Nothing is kept between runs: this only shows that the tools are there and that /repo builds.
cd "$(dirname "$0")" || exit 3
chmod +x check
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
set -e
out=$(/opt/venv/bin/python -B vf/build.py release | awk '{print $1}')
case "$out" in /tmp/verif-ufl-*) rm -rf "$out";; esac
/opt/venv/bin/python -B -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, hypothesis, mpmath
print("numpy", numpy.__version__, "hypothesis", hypothesis.__version__, "mpmath", mpmath.__version__)'
