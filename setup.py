#!/usr/bin/env python3
"""Build the replay driver once so that the checks only rebuild the crate."""
import vlib
vlib.build()
vlib.build_leak()
