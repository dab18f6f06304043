#!/bin/bash
# Nothing persists from here to the checks except what git holds: this only shows
# that the tools and the native build of the current tree work.
cd "$(dirname "$0")" || exit 1
D=$(mktemp -d) || exit 1
/opt/venv/bin/python -m symex.native "$D" || exit 1
PYTHONPATH="$D:$PWD/stubs:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c '
import gnome.model, symex.core, symex.symnp, symex.shims
import z3; print("z3", z3.get_version_string())' || exit 1
rm -rf "$D"
