import os, sys
os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
if len(sys.argv) < 2 or sys.argv[1] == 'setup':
    from . import boot
    boot.boot()
    print('ready:', sorted(boot.build_ext()))
    sys.exit(0)
from .explore import main
sys.exit(main(sys.argv[1], sys.argv[2:]))
