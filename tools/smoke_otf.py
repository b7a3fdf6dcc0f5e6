import sys,traceback
sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from pbsa.harness import *
from pbsa.terms import show, subterms
import time
def run(label, f):
    t=time.time()
    S=Session(); S.summarise_atm()
    try:
        r=f(S)
        print('==',label, '%.2fs'%(time.time()-t))
        def sh(v):
            if isinstance(v,TupleV): return '('+', '.join(sh(x) for x in v.items)+')'
            if isinstance(v,(Term,)): return show(v)[:700]
            if isinstance(v,(Ref,)): return show(S.term(v))[:700]+' axes %s'%(S.term(v).axes,)
            return repr(v)
        print('  ',sh(r))
        for e in S.I.effects: print('    eff',repr(e)[:200])
        for t in ([S.term(x) for x in r.items] if isinstance(r,TupleV) else [S.term(r)] if isinstance(r,(Term,Ref)) else []):
            for x in subterms(t):
                if x.op=='unknown': print('    UNK',x.data)
    except Exception as e:
        print('== FAIL',label); traceback.print_exc(limit=-6)
P='pybsm.otf.functional.'
def uv(S): return [S.grid('u'),S.grid('v')]
def s(S,names,kind='pos'): return [S.sym(n,kind) for n in names.split()]
T=[
('ap',lambda S:S.call(P+'circular_aperture_OTF',*uv(S),*s(S,'lambda0 D eta'))),
('apd',lambda S:S.call(P+'circular_aperture_OTF_with_defocus',*uv(S),*s(S,'wavelength D f defocus'))),
('cte',lambda S:S.call(P+'cte_OTF',*uv(S),*s(S,'p_x p_y cte_n_x cte_n_y phases_n cte_eff f'))),
('defo',lambda S:S.call(P+'defocus_OTF',*uv(S),*s(S,'D w_x w_y'))),
('det',lambda S:S.call(P+'detector_OTF',*uv(S),*s(S,'w_x w_y f'))),
('agg',lambda S:S.call(P+'detector_OTF_with_aggregation',*uv(S),*s(S,'w_x w_y p_x p_y f'),S.sym('n','posint'))),
('diff',lambda S:S.call(P+'diffusion_OTF',*uv(S),*s(S,'alpha ald al0 f'))),
('drift',lambda S:S.call(P+'drift_OTF',*uv(S),*s(S,'ax ay'))),
('filter',lambda S:S.call(P+'filter_OTF',*uv(S),S.grid('kernel','real','kr','kc'),*s(S,'ifov'))),
('gaus',lambda S:S.call(P+'gaussian_OTF',*uv(S),*s(S,'bx by'))),
('jit',lambda S:S.call(P+'jitter_OTF',*uv(S),*s(S,'bx by'))),
('poly',lambda S:S.call(P+'polychromatic_turbulence_OTF',*uv(S),S.vec('wav','wave','lam'),S.vec('wts','nonneg','lam'),*s(S,'altitude slant_range D ha cn2 int_time speed'))),
('tdi',lambda S:S.call(P+'tdi_OTF',S.grid('u'),*s(S,'w n_tdi phases_n beta f'))),
('turb',lambda S:S.call(P+'turbulence_OTF',*uv(S),*s(S,'lam D r0 alpha'))),
('wav',lambda S:S.call(P+'wavefront_OTF',*uv(S),*s(S,'lam pv Lx Ly'))),
('wav2',lambda S:S.call(P+'wavefront_OTF_2',*uv(S),*s(S,'cut wrms'))),
('wind',lambda S:S.call(P+'wind_speed_turbulence_OTF',*uv(S),*s(S,'lam D r0 td vel'))),
('psf',lambda S:S.call(P+'otf_to_psf',S.grid('otf'),*s(S,'df dx'))),
('wbw',lambda S:S.call(P+'weighted_by_wavelength',S.vec('wav','wave','lam'),S.vec('wts','nonneg','lam'),S.func('fn'))),
('coh',lambda S:S.call(P+'coherence_diameter',*s(S,'lam'),S.vec('z','incr','z'),S.vec('cn2','nonneg','z'))),
('hv',lambda S:S.call(P+'hufnagel_valley_turbulence_profile',S.vec('h','nonneg','z'),*s(S,'v cn2'))),
('odr',lambda S:S.call(P+'object_domain_defocus_radii',*s(S,'D R R0'))),
('dcd',lambda S:S.call(P+'dark_current_from_density',*s(S,'jd w_x w_y'))),
('idr',lambda S:S.call(P+'image_domain_defocus_radii',*s(S,'D dz f'))),
('slice',lambda S:S.call(P+'slice_otf',S.grid('otf','unit','row','row'),*s(S,'ang'))),
('apply',lambda S:S.call(P+'apply_otf_to_image',S.grid('img','nonneg','ir','ic'),*s(S,'gsd rng'),S.grid('otf','unit','row','col'),*s(S,'df ifov'))),
('common',lambda S:S.call(P+'common_OTFs',S.obj('pybsm.simulation.sensor.Sensor','sensor'),S.obj('pybsm.simulation.scenario.Scenario','scenario'),*uv(S),S.vec('wav','wave','lam'),S.vec('wts','nonneg','lam'),*s(S,'slant int_time'))),
('resamp',lambda S:S.call(P+'resample_2D',S.grid('img','nonneg','ir','ic'),*s(S,'dxin dxout'))),
]
sel=sys.argv[1:]
if __name__=='__main__':
  for l,f in T:
    if not sel or l in sel: run(l,f)
