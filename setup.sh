#!/bin/bash
# Builds everything once, so that the first check finds a warm compiler cache. Checks rebuild by themselves.
cd "$(dirname "$0")" && exec bash tools/build.sh fast cli real race pgp
