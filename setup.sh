#!/bin/bash
# Nothing to compile: pure Python on the sandbox's own interpreter. Verifies it is usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
chmod +x check
PYTHONPATH=/repo exec /opt/venv/bin/python -B -c 'import numpy, scipy, sklearn, kernelmethods; print("ok")'
