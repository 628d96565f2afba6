import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == "__main__":
    if sys.argv[1] == "setup":
        core.ensure_certs()
        core.build()
        core.build(asan=True)
        sys.exit(0)
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
