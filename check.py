#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import registry
sys.exit(registry.main(sys.argv[1:]))
