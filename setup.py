#!/usr/bin/env python3-vt
"""Builds the AST extractor and the battery objects (checks rebuild whatever is missing or out of date)."""
import sys,os
V=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[V+'/vcg',V]; sys.dont_write_bytecode=True
import prog
prog.build_astx(); print('extractor ready')
