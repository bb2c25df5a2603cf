"""Nothing to build: checks that the tools the checks need are there."""
import shutil, sys
miss = [t for t in ("why3", "z3", "z3-new", "cvc5", "clang++-18", "g++") if not shutil.which(t)]
print("missing: %s" % miss if miss else "ok")
sys.exit(1 if miss else 0)
