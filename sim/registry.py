"""All scenarios and oracles."""
from .base import REGISTRY  # noqa: F401
from .world import ORACLES  # noqa: F401
from . import scen_model, scen_bridge, scen_collect, scen_nl, scen_hold, scen_io, scen_draw, scen_share, scen_threads, scen_restart  # noqa: F401
