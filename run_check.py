import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    chk = None
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        chk = vlib.Check(pid, tier)
        mod.run(chk)
        rc = chk.finish()
    except vlib.CheckError as e:
        print('CHECK ERROR %s: %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if rc == 2 and chk and chk.violations:      # Confirmed before whatever went wrong
        for v in chk.violations:
            print('VIOLATION property=%s replay=%s' % (pid, v))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)

main()
