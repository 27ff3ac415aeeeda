#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""static check of one property of lunar-python; exit 0 held / 1 violation"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--repo')
    ap.add_argument('--procs', type=int)
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--specs')
    a = ap.parse_args()
    from absint import report
    sys.exit(report.check(a.property, a.tier, a.only, a.repo, a.procs, a.limit, a.v, not a.no_evidence, a.specs))


if __name__ == '__main__':
    main()
