#!/bin/bash
# Nothing to build: smoke-test that the code under test and Hypothesis import together.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B - <<'P'
import sys; sys.path.insert(0, 'lib')
import boot, hypothesis, channelpack
print('channelpack', channelpack.__file__, 'hypothesis', hypothesis.__version__)
P
