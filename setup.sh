#!/bin/bash
# Builds the data fixtures (git-ignored cache in build/).  Checks rebuild them when missing.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -m mc.fixtures
