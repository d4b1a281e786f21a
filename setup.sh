#!/bin/bash
# Nothing is built: checks import /repo directly. This only confirms that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, 'lib')
import harness, hypothesis
print('melodist', harness.melodist.__version__, 'from', harness.melodist.__file__, '- hypothesis', hypothesis.__version__)"
