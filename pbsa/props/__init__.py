"""Obligations per property."""
from . import p_met, p_otf, p_rad, p_sim, p_db, p_eff, p_iface  # noqa: F401
