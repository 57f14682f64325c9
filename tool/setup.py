#!/usr/bin/env python3
"""setup_cmd: build everything once (each check rebuilds what changed by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
driver.build_vm()
if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "toolchain.py")):
    import toolchain
    toolchain.build()
