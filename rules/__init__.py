import importlib, os, glob
RULES = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "r_*.py"))):
    m = importlib.import_module("rules." + os.path.basename(f)[:-3])
    RULES.update(m.RULES)
TECH = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "r_*.py"))):
    m = importlib.import_module("rules." + os.path.basename(f)[:-3])
    TECH.update(getattr(m, "TECH", {}))
