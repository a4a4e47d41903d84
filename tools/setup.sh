#!/bin/bash
# Prebuilds every simulator (the checks rebuild when /repo changes).
cd "$(dirname "$0")/.."
exec python3 check.py --build-all
