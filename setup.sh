#!/bin/bash
# Prepares the checkers (each check rebuilds what depends on /repo anyway).
cd "$(dirname "$0")" && mkdir -p evidence/replay && ./build.sh
