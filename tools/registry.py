"""property -> (module in suites/, level)"""
from props import PROPS

CHECKS = {p["id"]: (p["suite"], p["level"]) for p in PROPS}
