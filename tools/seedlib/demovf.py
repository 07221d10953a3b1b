"""Helpers of the demonstrations that need real clients and servers, the virtual network and the virtual clock."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["VF_REPO"] = os.getcwd()
import vf  # noqa

vf.bootstrap()
import json  # noqa

import realfed as R  # noqa
from fedlib import *  # noqa


def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
