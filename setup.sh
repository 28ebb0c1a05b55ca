#!/bin/bash
# The only thing to build ahead is nothing: every check compiles its clock and reads /repo itself.
# Fail early if the tools the checks need are missing.
set -e
gcc --version >/dev/null
/opt/venv/bin/python -c 'import flask, cryptography, pyasn1'
mkdir -p "$(dirname "$0")/evidence/replay"
