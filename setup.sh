#!/bin/sh
# Builds the monitors once; every check builds again what has changed since.
cd "$(dirname "$0")" || exit 1
exec python3 tools/setup.py
