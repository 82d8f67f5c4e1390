#!/bin/bash
# Warms the build cache; checks rebuild whatever they need.
exec python3 "$(dirname "$0")/check.py" --setup
