import sys
from sim import core
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
