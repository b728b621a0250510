import importlib, sys, traceback
def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module("euv.checks." + pid.lower())
        rc = m.main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
main()
