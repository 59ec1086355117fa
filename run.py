"""python3-vt run.py <property id> [-v]"""
import importlib
import os
import sys
import threading
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    rc = [3]

    def go():
        import traceback
        try:
            rc[0] = mod.run()
        except BaseException:
            traceback.print_exc()
            rc[0] = 3
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
