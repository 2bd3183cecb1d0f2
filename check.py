#!/usr/bin/env python3-vt
"""check.py <property>: decides one property for the sources in /repo (see DESIGN.md)."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tcv import driver
from specs import props

if __name__ == "__main__":
    sys.exit(driver.main(props.props))
