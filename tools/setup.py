"""setup_cmd: nothing to build; make sure the tools the checks need are there."""
import shutil, sys
miss = [t for t in ('clang', 'opt') if not shutil.which(t)]
if miss:
    print('missing: ' + ' '.join(miss))
    sys.exit(1)
print('ok')
