# Single source of truth: every property, its statement, and the check that decides it.
# tools/gen.py writes properties.jsonl and MANIFEST.json from this.
PROPS = {}


def prop(id, title, statement, over, quant, why, files, mech, harness, quick, thorough, explain, note="", assumptions=(), level="model_checking", technique=None, state="", observe="", min_scenarios=2):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, harness=harness,
                     bounds={"quick": quick, "thorough": thorough}, explain=explain, note=note, assumptions=list(assumptions), level=level,
                     technique=technique or "bounded exhaustive exploration of the real implementation against an independent reference model", state=state, observe=observe, min_scenarios=min_scenarios)


IMG = "The image builder and decoder in harness/img.hpp are written from the 1CD format description, share no code with the library, and are trusted."
SAN = "Memory errors that AddressSanitizer cannot see (for example inside one allocation) are noticed only through wrong results."


import sys
sys.modules.setdefault("registry", sys.modules[__name__])
import glob, os, importlib
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p_*.py"))):
    importlib.import_module(os.path.basename(_f)[:-3])
