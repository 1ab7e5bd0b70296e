import sys


def main():
    pid = sys.argv[1]
    from . import core
    sys.exit(core.run("mc." + pid.lower(), sys.argv[2:]))


if __name__ == "__main__":
    main()
