"""setup_cmd: check the tools and build the library variants once (the checks rebuild what they need)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import build
for v in ('plain', 'gasan'):
    build.lib_objects(v)
print('setup: built', build.tree_hash())
