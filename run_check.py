#!/opt/venv/bin/python
"""run_check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot
boot.fix_env()
from sim import runner
sys.exit(runner.main())
