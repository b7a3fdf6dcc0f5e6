"""Set-up of analysis sessions: symbolic arguments, symbolic objects, results."""
import os

from . import build as B
from .interp import (
    AnalysisError, Anchor, ClassV, CondV, DictV, Interp, ListV, ObjV, PV, Ref, State, SymFunc, TupleV, UNBOUND, World,
)
from .terms import NONE, ONEAX, Term, axis_n, const_int, mk, num, string, sym, symbols, unknown

REPO = os.environ.get("PBSA_REPO", "/repo")
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")

# attribute domains of the repository's data classes: name -> (kind, axes)
LAM = ("ax", "lam")       # in-band / sensor wavelengths
OW = ("ax", "ow")         # sensor.opt_trans_wavelengths
QW = ("ax", "qw")         # sensor.qe_wavelengths
KR, KC = ("ax", "kr"), ("ax", "kc")
IR, IC = ("ax", "ir"), ("ax", "ic")
CAL = ("ax", "cal")
NO = ("ax", "no")

SENSOR = {
    "name": ("str", ()), "D": ("pos", ()), "f": ("pos", ()), "p_x": ("pos", ()), "p_y": ("pos", ()), "w_x": ("pos", ()),
    "w_y": ("pos", ()), "eta": ("unit", ()), "int_time": ("pos", ()), "dark_current": ("nonneg", ()),
    "other_irradiance": ("nonneg", ()), "read_noise": ("nonneg", ()), "max_n": ("pos", ()), "max_well_fill": ("unit1", ()),
    "bit_depth": ("pos", ()), "n_tdi": ("posint", ()), "cold_shield_temperature": ("pos", ()), "optics_temperature": ("pos", ()),
    "optics_emissivity": ("unit", ()), "cold_filter_transmission": ("unit", ()), "cold_filter_temperature": ("pos", ()),
    "cold_filter_emissivity": ("unit", ()), "s_x": ("nonneg", ()), "s_y": ("nonneg", ()), "da_x": ("nonneg", ()),
    "da_y": ("nonneg", ()), "pv": ("nonneg", ()), "pv_wavelength": ("pos", ()), "L_x": ("pos", ()), "L_y": ("pos", ()),
    "opt_trans_wavelengths": ("wave", (OW,)), "optics_transmission": ("unit", (OW,)), "qe_wavelengths": ("wave", (QW,)),
    "qe": ("unit", (QW,)), "other_noise": ("nonneg", (NO,)), "filter_kernel": ("real", (KR, KC)), "frame_stacks": ("posint", ()),
}
SCENARIO = {
    "name": ("str", ()), "ihaze": ("int", ()), "altitude": ("pos", ()), "ground_range": ("nonneg", ()),
    "aircraft_speed": ("nonneg", ()), "target_reflectance": ("unit", ()), "target_temperature": ("pos", ()),
    "background_reflectance": ("unit", ()), "background_temperature": ("pos", ()), "ha_wind_speed": ("nonneg", ()),
    "cn2_at_1m": ("nonneg", ()), "interp": ("bool", ()),
}
REFIMAGE = {
    "name": ("str", ()), "img": ("nonneg", (IR, IC)), "gsd": ("pos", ()), "pix_values": ("incr", (CAL,)), "refl_values": ("unit", (CAL,)),
}
ATM = {"atm": ("pos", (("ax", "aw"), ("n", 6)))}
ROW, COL = ("ax", "row"), ("ax", "col")
OTFS = {k: ("cx", (ROW, COL)) for k in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF", "system_OTF")}
OTFS["r0_band"] = ("pos", (ROW, COL))
SNRS = {k: ("nonneg", ()) for k in (
    "tgt_n_rate", "tgt_n", "bkg_n_rate", "bkg_n", "well_fraction", "signal_noise", "dark_current_noise", "quantization_noise",
    "self_emission_noise", "total_noise", "path_noise", "scene_noise", "int_time")}
SNRS.update({"scale_factor": ("unit1", ()), "contrast_signal": ("real", ()), "snr": ("real", ()), "name": ("str", ())})
SNRS.update({k: ("nonneg", (LAM,)) for k in ("opt_trans", "qe", "other_irradiance", "tgt_FPA_irradiance", "weights", "bkg_FPA_irradiance")})
RESULT = {
    "name": ("str", ()), "sensor": ("obj:pybsm.simulation.sensor.Sensor", ()), "scenario": ("obj:pybsm.simulation.scenario.Scenario", ()),
    "snr": ("obj:pybsm.radiance.snr_metrics.SNRMetrics", ()), "otf": ("obj:pybsm.otf.otf.OTF", ()), "uu": ("real", (ROW, COL)),
    "vv": ("real", (ROW, COL)), "ifov_x": ("pos", ()), "ifov_y": ("pos", ()),
}
CLASSDOM = {"Sensor": SENSOR, "Scenario": SCENARIO, "RefImage": REFIMAGE, "Metrics": RESULT, "SNRMetrics": SNRS, "OTF": OTFS}


class Session:
    def __init__(self, root=None, scenario_atm="sym"):
        self.w = World(root or REPO, extra=spec_modules())
        self.I = Interp(self.w, self.objdom)
        self.st = State()
        self.dom_extra = {}
        self.scenario_atm = scenario_atm

    # a callee whose own behaviour another property decides is kept opaque
    def summarise_atm(self):
        """database access: C17-C19 decide it; here any table of the documented shape"""
        def load(which):
            def h(I, st, vals):
                ts = tuple(I.term(st, vals[k]) for k in ("altitude", "ground_range", "ihaze") if k in vals)
                return I.ref(st, mk("db", ts, which, (("ax", "aw"), ("n", 6))))
            return h
        self.I.summaries["pybsm.utils.load_database_atmosphere"] = load("interp")
        self.I.summaries["pybsm.utils.load_database_atmosphere_no_interp"] = load("exact")
        def atm(I, st, vals):
            me = vals["self"]
            g = lambda n: I.term(st, I.getattr(me, n, st))
            root = "%s.atm" % me.root if getattr(me, "root", None) else None
            return I.ref(st, mk("scen_atm", (g("altitude"), g("ground_range"), g("ihaze")), None, (("ax", "aw"), ("n", 6))), root=root)
        self.I.summaries["pybsm.simulation.scenario.Scenario.atm"] = atm

    def summarise_psf(self, qual):
        """blur kernel: another obligation decides it; here any unit-sum array"""
        fn = self.look(qual)
        ps = fn.node.args
        if [x.arg for x in ps.posonlyargs + ps.args + ps.kwonlyargs] != ["otf", "df", "dx_out"] or ps.vararg or ps.kwarg:
            return False

        def h(I, st, vals):
            ts = tuple(I.term(st, vals[k]) for k in ("otf", "df", "dx_out") if k in vals)
            return I.ref(st, mk("psfof", ts, None, (("ax", "pr"), ("ax", "pc"))))
        self.I.summaries[qual] = h
        return True

    def modular(self, quals, raw=False):
        """keep the named functions opaque: their results become uninterpreted
        functions of the canonical arguments (congruence only; used to prove)"""
        for q in quals:
            self.I.summaries[q] = self._opaque(q, raw)

    def _opaque(self, qual, raw=False):
        from .nf import canon

        def key(I, st, v):
            if isinstance(v, ObjV):
                dom = CLASSDOM.get(v.cls.node.name if v.cls is not None else "")
                if dom is None:
                    return None
                ts = [key(I, st, I.getattr(v, n, st)) for n in dom if n != "name"]
            elif isinstance(v, (Term, Ref, ListV, TupleV)):
                t = I.term(st, v)
                return None if t.unk else t if raw else canon(t)
            else:
                return None
            return None if any(t is None for t in ts) else mk("args", tuple(ts), None, ())

        def h(I, st, vals):
            I.summaries.pop(qual)
            try:
                ks = [key(I, st, v) for _, v in sorted(vals.items())]
                fn = self.look(qual)
                v = I.call(fn, [], dict(vals), st)
            finally:
                I.summaries[qual] = h
            if any(k is None for k in ks):
                return v
            K = mk("args", tuple(ks), tuple(sorted(vals)), ())

            def out(v, path):
                if isinstance(v, (Term, Ref)):
                    t = I.term(st, v)
                    if t.unk:
                        return v
                    r = mk("opq", (K,), (qual, path), t.axes)
                    return I.ref(st, r) if isinstance(v, Ref) else r
                if isinstance(v, TupleV):
                    its = I.items(st, v)
                    if its is not None:
                        return TupleV(tuple(out(x, path + "[%d]" % i) for i, x in enumerate(its)))
                if isinstance(v, ObjV):
                    d = st.heap.get(v.loc)
                    if isinstance(d, dict):
                        n = I.new()
                        st.heap[n] = {k: out(x, path + "." + k) for k, x in d.items()}
                        return ObjV(n, v.cls, v.sym, v.root)
                return v
            return out(v, "")
        return h

    # symbolic values -----------------------------------------------------
    def sym(self, name, kind="real", axes=(), root=True):
        if kind == "str":
            return sym(name, (), "str")
        t = sym(name, axes, kind)
        if axes:
            return self.I.ref(self.st, t, root=("param:" + name) if root else None)
        return t

    def vec(self, name, kind="real", ax=None):
        return self.sym(name, kind, (("ax", ax or name),))

    def grid(self, name, kind="real", r="row", c="col"):
        return self.sym(name, kind, (("ax", r), ("ax", c)))

    def func(self, name):
        return SymFunc(name)

    def obj(self, cls, name):
        """symbolic object of a repository class (any state satisfying its domains)"""
        c = self.look(cls)
        return self.I.symobj(self.st, c, name, "param:" + name)

    def objdom(self, I, st, obj, name, full):
        cls = obj.cls.node.name if obj.cls is not None else ""
        d = CLASSDOM.get(cls, {})
        key = name.lstrip("_")
        ent = self.dom_extra.get((cls, key)) or d.get(key)
        if ent is None:
            if cls == "Scenario" and name.startswith("_"):
                # hidden state: value unknown but fixed
                return sym("%s.%s" % (obj.sym, name), (), "real")
            if name in obj.cls.anns or True:
                return sym("%s.%s" % (obj.sym, name), (), "real")
        kind, axes = ent
        if kind.startswith("obj:"):
            return I.symobj(st, self.look(kind[4:]), "%s.%s" % (obj.sym, key), "%s.%s" % (obj.root, key))
        t = sym("%s.%s" % (obj.sym, key), axes, kind)
        if axes:
            return I.ref(st, t, root="%s.%s" % (obj.root, key))
        return t

    # access --------------------------------------------------------------
    def look(self, qual):
        return self.I.lookup_qual(qual)

    def call(self, fn, *args, **kw):
        if isinstance(fn, str):
            fn = self.look(fn)
        return self.I.call(fn, list(args), kw, self.st)

    def get(self, v, name):
        return self.I.getattr(v, name, self.st)

    def set(self, v, name, val):
        return self.I.setattr(v, name, val, self.st)

    def term(self, v):
        return self.I.term(self.st, v)

    def items(self, v):
        return self.I.items(self.st, v)

    def fields(self, obj):
        d = self.st.heap.get(obj.loc)
        return d if isinstance(d, dict) else {}


def spec_modules():
    out = {}
    for f in os.listdir(SPEC):
        if f.endswith(".py") and not f.startswith("__"):
            out["spec_" + f[:-3]] = os.path.join(SPEC, f)
    return out
