import sys
sys.dont_write_bytecode = True
from . import runner


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        sys.exit(runner.run_check(sys.argv[2]))
    if cmd == "replay":
        sys.exit(runner.replay(sys.argv[2]))
    if cmd == "digest":
        runner.determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 20)
        sys.exit(0)
    raise SystemExit("usage: main check|replay|digest ...")


main()
