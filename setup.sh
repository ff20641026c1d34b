#!/bin/bash
cd "$(dirname "$0")" && exec python3 lib/build.py
