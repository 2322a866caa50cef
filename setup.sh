#!/bin/bash
# Builds what the checks share, from the committed files and /repo.
set -e
cd "$(dirname "$0")"
exec python3 lib/setup.py
