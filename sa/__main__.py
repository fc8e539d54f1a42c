import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    # the order of sets of names has to be the same in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'sa'] + sys.argv[1:])
from .run import main
sys.exit(main(sys.argv[1:]))
