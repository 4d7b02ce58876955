#!/bin/bash
# Nothing to build: the checks run from source. Fails early if the tools are missing.
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python -B -c 'import z3, cvc5, sys; print("z3", z3.get_version_string(), "python", sys.version.split()[0])'
/opt/veriftools/pyvenv/bin/python -B -c 'from vp import check; check.setup_import(); import expression; print("expression from", expression.__file__)'
