import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

if __name__ == '__main__':
    sys.exit(vlib.main(sys.argv[1]))
