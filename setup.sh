#!/bin/bash
# Builds the rustc driver and extracts the default feature sets once, so that later checks start warm where they can.
cd "$(dirname "$0")" || exit 2
exec python3 lib/facts.py
