#!/bin/bash
# Nothing to build: TLC interprets the specifications, the harness imports /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
[ -f /opt/veriftools/tla/tla2tools.jar ] && [ -x /opt/venv/bin/python ]
