#!/bin/bash
# Builds the driver and everything the checks depend on that doesn't come from /repo's own crates.
cd "$(dirname "$0")" && exec python3 lib/setup.py
