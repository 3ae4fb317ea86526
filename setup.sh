#!/bin/bash
# builds the MIR dumper and the first dump
cd "$(dirname "$0")" && exec python3-vt engine/build.py
