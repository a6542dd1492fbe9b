#!/bin/bash
# nothing to compile: make sure the interpreter and the explorer start
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/pypyvenv/bin/python -W ignore -c "import numpy, scipy, mc.core, mc.choice, mc.rng" || exit 2
echo setup ok
