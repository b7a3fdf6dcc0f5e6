import sys
sys.argv=[sys.argv[0]]+sys.argv[1:]
sys.path.insert(0,"/verif/tools")
from smoke_otf import *
R='pybsm.radiance.functional.'
M='pybsm.metrics.functional.'
G='pybsm.geospatial.'
SI='pybsm.simulation.functional.'
def sensor(S): return S.obj('pybsm.simulation.sensor.Sensor','sensor')
def scen(S): return S.obj('pybsm.simulation.scenario.Scenario','scenario')
def refi(S): return S.obj('pybsm.simulation.ref_image.RefImage','ref')
def w(S): return S.vec('wav','wave','lam')
def v(S,n,k='pos'): return S.vec(n,k,'lam')
def atm(S): return S.sym('atm','pos',(("ax","aw"),("n",6)))
def fill(S,o):
    return o
T=[
('alt',lambda S:S.call(G+'altitude_along_slant_path',*s(S,'ht hs sr'))),
('gsd',lambda S:S.call(G+'ground_sample_distance',*s(S,'ifov sr'))),
('nad',lambda S:S.call(G+'nadir_angle',*s(S,'ht hs sr'))),
('sr',lambda S:S.call(G+'curved_earth_slant_range',*s(S,'ht hs gr'))),
('giqe3',lambda S:S.call(M+'giqe3',*s(S,'rer gsd eho ng snr'))),
('giqe4',lambda S:S.call(M+'giqe4',*s(S,'rer gsd eho ng snr elev'))),
('giqe5',lambda S:S.call(M+'giqe5',*s(S,'rer1 rer2 gsd snr elev'))),
('giqe5rer',lambda S:S.call(M+'giqe5_RER',S.grid('mtf','unit','row','row'),*s(S,'df ix iy'))),
('edge',lambda S:S.call(M+'giqe_edge_terms',S.grid('mtf','unit','row','row'),*s(S,'df ix iy'))),
('grd',lambda S:S.call(M+'ground_resolved_distance',S.vec('sl','unit','sl'),*s(S,'df snr ifov sr'))),
('rer',lambda S:S.call(M+'relative_edge_response',S.vec('sl','unit','sl'),*s(S,'df ifov'))),
('eho',lambda S:S.call(M+'edge_height_overshoot',S.vec('sl','unit','sl'),*s(S,'df ifov'))),
('er',lambda S:S.call(M+'edge_response',S.sym('pos'),S.vec('sl','unit','sl'),*s(S,'df ifov'))),
('niirs',lambda S:S.call(M+'niirs',sensor(S),scen(S))),
('niirs5',lambda S:S.call(M+'niirs5',sensor(S),scen(S))),
('plot',lambda S:S.call(M+'plot_common_MTFs',S.obj('pybsm.metrics.metrics.Metrics','m'))),
('plotn',lambda S:S.call(M+'plot_noise_terms',S.obj('pybsm.metrics.metrics.Metrics','m'))),
('ng',lambda S:S.call('pybsm.noise.noise_gain',S.grid('kernel','real','kr','kc'))),
('qn',lambda S:S.call('pybsm.noise.quantization_noise',*s(S,'pe bits'))),
('fpi',lambda S:S.call(R+'at_focal_plane_irradiance',*s(S,'D f'),v(S,'L'))),
('bb',lambda S:S.call(R+'blackbody_radiance',w(S),*s(S,'T'))),
('cwf',lambda S:S.call(R+'check_well_fill',*s(S,'tot maxf'))),
('csh',lambda S:S.call(R+'cold_shield_self_emission',w(S),*s(S,'t D f'))),
('cst',lambda S:S.call(R+'cold_stop_self_emission',w(S),*s(S,'t e D f'))),
('fpii',lambda S:S.call(R+'focal_plane_integrated_irradiance',v(S,'L'),v(S,'Ls'),*s(S,'topt eopt'),w(S),*s(S,'dl t D f'))),
('ose',lambda S:S.call(R+'optics_self_emission',w(S),*s(S,'t e tr D f'))),
('pdr',lambda S:S.call(R+'photon_detection_rate',v(S,'E'),*s(S,'wx wy'),w(S),v(S,'qe'))),
('snr',lambda S:S.call(R+'photon_detector_SNR',sensor(S),w(S),v(S,'tr'),v(S,'br'))),
('r2p',lambda S:S.call(R+'reflectance_to_photoelectrons',atm(S),sensor(S),*s(S,'it tt'))),
('sigr',lambda S:S.call(R+'signal_rate',w(S),v(S,'L'),v(S,'ot'),*s(S,'D f wx wy'),v(S,'qe'),v(S,'oi'),*s(S,'dc'))),
('totr',lambda S:S.call(R+'total_radiance',atm(S),*s(S,'r t'))),
('gr',lambda S:S.call(R+'giqe_radiance',atm(S),*s(S,'em'))),
('rbw',lambda S:S.call(R+'resample_by_wavelength',w(S),v(S,'vals'),S.vec('nw','wave','nw'))),
('ifov',lambda S:S.call(SI+'instantaneous_FOV',*s(S,'w f'))),
('wien',lambda S:S.call(SI+'wiener_filter',S.grid('otf'),*s(S,'nsr'))),
('i2r',lambda S:S.call(SI+'img_to_reflectance',S.grid('img','nonneg','ir','ic'),S.vec('pv','incr','cal'),S.vec('rv','unit','cal'))),
('sim',lambda S:S.call(SI+'simulate_image',refi(S),sensor(S),scen(S))),
('str',lambda S:S.call(SI+'stretch_contrast_convert_8bit',S.grid('img','nonneg','ir','ic'),S.vec('perc','pos','two') if 0 else S.I.mklist(S.st,s(S,'plo phi')))),
('str0',lambda S:S.call(SI+'stretch_contrast_convert_8bit',S.grid('img','nonneg','ir','ic'))),
('ri',lambda S:S.call('pybsm.simulation.ref_image.RefImage',S.grid('img','nonneg','ir','ic'),*s(S,'gsd'))),
('ri2',lambda S:S.call('pybsm.simulation.ref_image.RefImage',S.grid('img','nonneg','ir','ic'),*s(S,'gsd'),S.vec('pv','incr','cal'),S.vec('rv','unit','cal'))),
('ri3',lambda S:S.call('pybsm.simulation.ref_image.RefImage',S.grid('img','nonneg','ir','ic'),*s(S,'gsd'),S.vec('pv','incr','cal'))),
('est',lambda S:S.call(S.get(refi(S),'estimate_capture_parameters'),*s(S,'alt'))),
('show',lambda S:S.call(S.get(refi(S),'show'))),
('sc',lambda S:S.call('pybsm.simulation.scenario.Scenario',S.sym('n','str'),*s(S,'ih alt gr'))),
('scatm',lambda S:S.get(S.call('pybsm.simulation.scenario.Scenario',S.sym('n','str'),*s(S,'ih alt gr')),'atm')),
('se',lambda S:S.call('pybsm.simulation.sensor.Sensor',S.sym('n','str'),*s(S,'D f p_x'),S.vec('otw','wave','ow'))),
('db',lambda S:S.call('pybsm.utils.load_database_atmosphere_no_interp',*s(S,'alt gr ihaze'))),
('dbi',lambda S:S.call('pybsm.utils.load_database_atmosphere',*s(S,'alt gr ihaze'))),
]
sel=sys.argv[1:]
for l,f in T:
    if not sel or l in sel: run(l,f)
