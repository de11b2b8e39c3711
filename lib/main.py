import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

if __name__ == "__main__":
    try:
        rc = vlib.main(sys.argv[1:])
    except KeyboardInterrupt:
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
