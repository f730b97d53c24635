#!/usr/bin/env python3
"""Build the analyser from the committed files."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E
E.build_analyser()
print('analyser built')
