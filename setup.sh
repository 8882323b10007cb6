#!/bin/bash
# Compiles every harness package once, so that the build cache is warm where it is kept.
cd "$(dirname "$0")" && exec python3 check.py --setup
