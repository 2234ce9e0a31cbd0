#!/usr/bin/env python3
"""Nothing is prebuilt (each check builds from /repo): verifies the tools and the files."""
import json, os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ('clang++', 'g++') if not shutil.which(t)]
json.load(open(os.path.join(HERE, 'MANIFEST.json')))
os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
if bad:
    sys.exit('missing tools: ' + ' '.join(bad))
print('ready')
