#!/usr/bin/env python3
# builds the library objects and every harness once (checks rebuild whatever /repo's tree needs)
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.run([sys.executable, V + "/check.py", "ALL", "--build-only"]).returncode)
