import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import framework

if __name__ == '__main__':
    sys.stdout.flush()
    try:
        rc = framework.main(sys.argv[1])
    except Exception as e:      # the check itself is at fault: no verdict
        print('error: %r' % (e,))
        rc = 2
        if os.environ.get('NMV_DEBUG'):
            raise
    sys.stdout.flush()
    os._exit(rc)
