#!/bin/sh
# Nothing is compiled ahead of time: every check encodes /repo's current source. This only verifies the tools are there.
cd "$(dirname "$0")" || exit 2
z3-new --version && cvc5 --version | head -1 && /opt/venv/bin/python --version
