"""Registration of all proof suites."""
import driver
from driver import Suite
import sym, stdmodel
import iv_units
Suite('iv', 'iv.cpp', iv_units.FAMS, iv_units.flags, iv_units.UNITS,
      lambda mod, f, unroll: sym.Exec(mod, stdmodel.Models([]), fam=f, unroll=unroll),
      native='iv_search.cpp', nflags=lambda f: [x for x in iv_units.flags(f) if x != '-DFAMDEF='] + (['-DNEGF=1'] if f.neg else []), chunk=18)

import set_units
QUICK = {}
def set_quick(prop):
    return QUICK.get(prop, ('join_dyn_int', 'join_ro_int', 'join_dyn_dbl', 'join_ro_intg', 'sep_cl_int', 'sep_dyn_int', 'split_ro_int', 'split_lo_int'))
def cexec(mod, f, unroll): return sym.Exec(mod, stdmodel.Models([('set<', f.kind), ('map<', f.kind)]), fam=f, unroll=unroll)
Suite('set', 'set.cpp', set_units.FAMS, set_units.flags, set_units.UNITS, cexec, native='set_search.cpp', nflags=set_units.flags, chunk=1, quick=set_quick, unit_s=150)

import map_units
def mexec(mod, f, unroll):
    ex = sym.Exec(mod, stdmodel.Models([('set<', f.skind), ('map<', f.kind)]), fam=f, unroll=unroll); ex.base_contracts = [map_units.CODOM]; ex.joinpat = map_units.JOINPAT; return ex
def mctx(ex, f):
    c = map_units.MCtx(ex, f); c.use(); return c
MQUICK = {'M05': ('jm_pa_ro_int', 'sm_pe_dyn_int', 'jm_sete_dyn_int', 'jm_ta_ro_int'), 'M06': ('jm_pa_ro_int', 'sm_pe_dyn_int', 'jm_set_dyn_int', 'sm_te_dyn_int', 'jm_pa_dyn_dbl', 'jm_pe_cl_int'),
          'M10': ('jm_pa_ro_int', 'sm_pe_dyn_int', 'jm_set_dyn_int', 'sm_pa_dyn_dbl'), 'M09': ('jm_pa_ro_int', 'sm_pe_dyn_int', 'jm_te_dyn_int', 'sm_set_ro_int')}
MNAT = ('jm_pa_ro_int', 'jm_pe_dyn_int', 'sm_pa_cl_int', 'sm_pe_dyn_int', 'jm_ta_dyn_int', 'sm_te_ro_int', 'jm_set_dyn_int', 'sm_sete_ro_int', 'jm_max_ro_int', 'jm_pa_dyn_dbl', 'sm_pa_dyn_intg', 'jm_te_dyn_dbl')
Suite('map', 'map.cpp', map_units.FAMS, map_units.flags, map_units.UNITS, mexec, native='map_search.cpp', nflags=map_units.flags, chunk=1,
      quick=lambda prop: MQUICK.get(prop, ('jm_pa_ro_int', 'sm_pe_dyn_int')), nquick=lambda prop: MNAT, unit_s=400, mkctx=mctx, native_props=['M%02d' % i for i in range(1, 12)])
