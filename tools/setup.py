#!/opt/veriftools/pyvenv/bin/python
"""setup_cmd: builds the AST extractor"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
from ctx import build_extractor
print(build_extractor())
