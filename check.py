#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id> [--tier quick|thorough]"""
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from sa import harness
    out = []
    threading.stack_size(512 * 1024 * 1024)

    def go():
        try:
            out.append(harness.main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0])
