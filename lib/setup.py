"""Checks that the tools the checks need are present. The checks build everything themselves."""
import shutil, sys
missing = [t for t in ("java", "g++", "ninja", "tlc") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ready")
