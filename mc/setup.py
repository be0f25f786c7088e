"""Nothing is kept from here: every check builds what it needs.  Confirms that the tools are there and that the reference digests agree with Python's."""
import os, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mclib, refcheck
for t in ('gcc', 'clang', 'ld', 'ar'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
refcheck.run(mclib.Ctx('setup', 'other', 'quick', 1))
print('ready')
