"""python3-vt -m vt.rerun <variant> "<command>": builds the real code in that configuration and runs one replay command."""
import sys
from . import native
if sys.argv[1] == 'tools':
    from . import native_tools
    exe = native_tools.build()
else:
    exe = native.build(sys.argv[1], 'O0' if sys.argv[2].startswith('stack') else True)
r = native.execute(exe, [(sys.argv[2], None)], 600)
print(r.out + r.err)
