"""Debug helper: run only the concrete witness search of a check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, framework
mod = importlib.import_module('checks.' + sys.argv[1])
print(mod.witness(__import__("prog").Program(mod.SOURCES), [], 'quick', 1))
