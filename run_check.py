import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vgg.check import Report
pid = sys.argv[1]
rep = Report(pid)
importlib.import_module("checks." + pid.lower()).run(rep)
sys.exit(rep.finish())
