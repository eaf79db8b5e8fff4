"""python3 checks/run.py <property> [--tier quick|thorough] [--seed N] [--replay file]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    from vlib import build, core, registry
    pid = sys.argv[1]
    try:
        registry.run(pid)
    except SystemExit:
        raise
    except build.BuildError as e:
        print("ERROR: the tree does not build\n" + str(e)[-3000:])
        sys.exit(3)
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
