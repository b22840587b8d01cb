#!/bin/bash
# Everything is in place offline; check that it is.
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -c 'import numpy, scipy, pyscf' 
echo setup ok
