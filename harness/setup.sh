#!/bin/sh
# Nothing is compiled: the checks run TLC on spec/ and import the library from /repo. This only confirms the tools are there.
set -e
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
java -version 2>/dev/null
/opt/venv/bin/python -B -c "import jax, basix, meshio, scipy"
mkdir -p evidence
