#!/bin/sh
# builds the engine, the harness and the bitcode of the code under check (offline)
cd "$(dirname "$0")" && exec python3 tools/build.py
