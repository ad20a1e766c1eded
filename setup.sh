#!/bin/bash
# Nothing to compile in /verif; bring the extension modules of /repo up to date and prove the package imports.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c "
from mc import boot
boot.build(); print('ready', boot.load().__file__)"
