#!/usr/bin/env python3
"""Checks that what the checks need is there. Nothing has to be built ahead:
every check builds the harness together with /repo's working tree."""
import os, sys
go = '/opt/veriftools/go1.27.3/bin/go'
if not os.path.exists(go):
    sys.exit('no Go toolchain at ' + go)
print('ready')
