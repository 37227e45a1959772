"""Entry point: check one property.  exit 0 held, 1 violated, 2 no answer."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module(pid.lower())
    ck = None
    try:
        ck = common.Check(pid, tier)
        for p in getattr(mod, 'PROFILES', ('dev',)):
            common.build(p)
        mod.run(ck)
        return ck.finish()
    except common.ToolError as ex:
        print('NO ANSWER property=%s: %s' % (pid, ex))
        return 2
    except Exception:  # noqa
        traceback.print_exc()
        return 2
    finally:
        if ck is not None:
            import shutil
            shutil.rmtree(ck.wd, ignore_errors=True)


sys.exit(main())
