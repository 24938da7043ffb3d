#!/bin/sh
# builds the framework from the committed files: compiles /repo's tree once so that the checks start warm
cd "$(dirname "$0")" || exit 2
mkdir -p evidence .build
exec /opt/vp/venv/bin/python -s harness/vbuild.py
