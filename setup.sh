#!/bin/bash
# Builds oak, its runtime and the support crate from /repo's working tree (the checks do it again when the tree changes).
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 -B -c "import sys; sys.path.insert(0, 'engine'); import build; build.prepare()"
