"""Entry point: main.py PROPERTY"""
import sys, os, traceback, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import core


MALLOC = "/lib/x86_64-linux-gnu/libc_malloc_debug.so.0"


def main():
    prop = sys.argv[1]
    if prop in ("C20",) and os.path.exists(MALLOC) and "MALLOC_CHECK_" not in os.environ:
        # heap blocks carry guards that are checked when they are freed
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, dict(os.environ, LD_PRELOAD=MALLOC, MALLOC_CHECK_="3"))
    chk = None
    try:
        try:
            import pywt
        except Exception as e:
            # the package that builds but cannot be imported breaks every property
            print("import of pywt failed:", repr(e))
            chk = core.Check(prop)
            chk.violate("import", "import pywt fails: " + repr(e))
            return chk.finish()
        import registry, warnings
        warnings.simplefilter("ignore")
        chk = core.Check(prop)
        registry.run(prop, chk)
        return chk.finish()
    except core.MachineryError as e:
        print("CHECK ERROR:", e)
        # what was judged before the machinery gave up still counts
        return chk.finish() if chk is not None and chk.violations else 2
    except Exception as e:
        tb = traceback.format_exc()
        if any("/pywt/" in f.filename and "/verif/" not in f.filename for f in traceback.extract_tb(e.__traceback__)):
            # a call that the specification says succeeds raised inside the library
            print(tb)
            chk.violate("unexpected-exception:" + type(e).__name__, tb.strip().splitlines()[-1], dict(trace=tb))
            return chk.finish()
        print(tb)
        print("CHECK ERROR")
        return chk.finish() if chk is not None and chk.violations else 2
    finally:
        core.cleanup()


rc = main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
