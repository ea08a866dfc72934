"""python3 -m vt.run C01 [--replay FILE]"""
import importlib, sys

if __name__ == "__main__":
    m = importlib.import_module("vt.checks." + sys.argv[1].lower())
    sys.exit(m.CHECK.main(sys.argv[2:]))
