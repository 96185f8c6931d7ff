"""Checks that the tools the checks need are present (nothing is installed)."""
import shutil, subprocess, sys
for t in ('cargo', 'cargo-kani'):
    if not shutil.which(t): print('missing tool:', t)
sys.exit(0)
