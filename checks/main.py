import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def run():
    pid = sys.argv[1]
    if pid in ('C08', 'C09', 'C15'):
        from sim import disk
        disk.ensure()
    mod = importlib.import_module('checks.%s' % pid.lower())
    from sim import core
    rc = core.main(mod.CHECK, sys.argv[2:] or [os.environ.get('VERIF_TIER', 'quick')])
    sys.stdout.flush()
    from sim import boot
    boot.cleanup()
    os._exit(rc)


if __name__ == '__main__':
    try:
        run()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('HARNESS-ERROR')
        try:
            from sim import boot
            boot.cleanup()
        finally:
            sys.stdout.flush()
            os._exit(2)
