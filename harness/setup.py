#!/usr/bin/env python3
"""Builds the harness once, to see that everything needed is there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fsx  # noqa: E402
print(fsx.build())
