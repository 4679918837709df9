#!/usr/bin/env python3
"""Builds the harness once, to fail early when the tool chain is not usable. Checks rebuild what they need."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
os.makedirs(check.TARGET, exist_ok=True)
b, text = check.build('full')
print(text)
sys.exit(0 if b else 1)
