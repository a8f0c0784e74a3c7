#!/bin/bash
# nothing to build: the checks are Python run by /opt/venv/bin/python; check that what they need is there
cd "$(dirname "$0")/.." || exit 3
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vc.core, z3, numpy, scipy; print('ok', z3.get_version_string(), numpy.__version__, scipy.__version__)"
