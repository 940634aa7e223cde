#!/usr/bin/env python3
"""python3 run.py C03 [--tier quick|thorough] - analyse /repo's working tree for one property"""
import importlib
import pathlib
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))

from checks import common  # noqa: E402


def registry(prop):
    m = importlib.import_module(f'checks.{prop.lower()}')
    return m.run


common.main(registry)
