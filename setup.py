#!/usr/bin/env python3
"""Builds the clang fact extractor (cached in .cache; every check also builds it on demand)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analyzer'))
import facts
print(facts.build_tool())
