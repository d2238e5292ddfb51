#!/bin/bash
# builds the fact extractor and warms the (content-keyed) fact cache
cd "$(dirname "$0")"
exec python3 engine/facts.py
