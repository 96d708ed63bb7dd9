#!/usr/bin/env python3
"""Builds and runs the checks.   run.py check <id> [quick|thorough]   run.py replay <file>   run.py setup"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import runner
sys.exit(runner.main(sys.argv[1:]))
