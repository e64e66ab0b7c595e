"""Run a script of the tree with the homes of users below a scratch root: oadrun.py ROOT SCRIPT ARGS..."""
import runpy
import sys

from vh import homes

homes.install(sys.argv[1])
del sys.argv[0:2]
runpy.run_path(sys.argv[0], run_name="__main__")
