#!/bin/bash
# Everything is committed: Hypothesis is vendored, skada is imported from /repo.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import pbt.core"
