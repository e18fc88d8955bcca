"""harness crate -> crates of /repo it uses directly; property -> harness crates (from spec.py)"""
from spec import PROPS

GROUPS = {
    "mx": ["matrix", "polynomial"],
    "cal": ["calendar"],
    "geo": ["geometry"],
    "heat": ["heat", "model", "weather", "calendar", "geometry", "matrix", "schedule", "communication"],
    "air": ["air", "model", "weather", "calendar", "geometry", "matrix", "communication"],
    "sol": ["light", "model", "weather", "calendar", "geometry", "matrix", "communication"],
    "ren": ["rendering", "geometry", "matrix", "calendar", "weather", "model", "communication"],
    "sim": ["simple", "model", "communication", "calendar", "geometry", "weather", "matrix", "heat", "air", "light"],
    "wea": ["weather", "calendar", "geometry", "schedule"],
}
