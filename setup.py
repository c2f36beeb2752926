#!/usr/bin/env python3
"""Build the source extractor (offline; the checks rebuild it on demand as well)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import build
build.ensure_tool()
print('extractor ready')
