"""Builds the MIR dumper and warms the dependency builds (idempotent)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analysis'))
import build
d = build.dump('program')
print('program: %d functions' % len(d['insts']))
if os.path.exists(os.path.join(V, 'analysis', 'cli.py')):
    d = build.dump('cli')
    print('client: %d functions' % len(d['insts']))
