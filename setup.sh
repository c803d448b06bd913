#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
cd "$(dirname "$0")" && ./check.sh --build-only
