"""C10: measuring functions leave what they are given unchanged.

Alias and effect analysis: each function of the table is interpreted with
parameters that carry their origin; every store, in-place operation or
mutating call that reaches an object of the caller is an event.
"""
from sa.interp import Interp, State
from sa.util import short
from sa.project import Cls, AnalysisBroken

# module (or class) -> names; a name may be followed by parameters (or paths)
# that the documentation allows to change
PURE = {
    'monitor.stretch_mod': '*',
    'monitor.post_corr_process': [
        'corr_mat_stretch', 'corr_mat_shift', 'corr_mat_extract_trace',
        'measure_shift'],
    'monitor.monitor': [
        'corr_find_filter', 'average_components',
        'average_components_mem_save', 'average_components_wfc',
        'average_dvs_by_coords', 'make_time_list'],
    'monitor.spatial': [
        'probability', 'compute_grid_dist', 'sensitivity_kernel',
        'data_variance', 'compute_cm', 'geo2cart', 'dv_starts'],
    'monitor.wfc': '*',
    'monitor.dv': ['read_dv'],
    'correlate.stream': [
        'compare_tr_id', 'combine_stats', 'alphabetical_correlation',
        'stack_st', 'stack_st_by_group', 'convert_statlist_to_bulk_stats'],
    'correlate.correlate': [
        'is_in_xcombis', 'compute_network_station_combinations',
        '_compare_existing_data', 'sort_comb_name_alphabetically'],
    'utils.miic_utils': [
        'save_header_to_np_array', 'load_header_from_np_array',
        'convert_utc_to_timestamp', 'convert_timestamp_to_utcdt',
        'nan_moving_av', 'nan_helper', 'filter_stat_dist',
        'trace_calc_az_baz_dist', 'inv_calc_az_baz_dist'],
    'utils.raw_analysis': ['spct_series_welch'],
    'utils.io': ['corrmat_to_corrbulk'],
    'plot.plot_correlation': '*',
    'plot.plot_dv': '*',
    'plot.plot_multidv': '*',
    'plot.plot_spectrum': '*',
    'plot.plot_wfc': '*',
    'plot.plot_utils': [],
}
METHODS = {
    'CorrBulk': ['__getitem__', 'copy', 'create_corr_stream',
                 'extract_trace self.ref_trc',
                 'extract_multi_trace self.ref_trc', 'find_clock_shift',
                 'measure_shift', 'plot', 'save', 'select_corr_time',
                 'slice', 'wfc', 'stretch'],
    'CorrStream': ['pop_at_utcs', 'select_corr_time', 'select_time', 'slide',
                   'stack', '_to_matrix', 'create_corr_bulk', 'plot',
                   '__str__'],
    'CorrTrace': ['__init__ self', 'plot', 'times', '__str__'],
    'DV': ['save', 'plot', '__str__'],
    'WFC': ['save', 'plot', '__str__', 'compute_average self.av self.mean'],
    'WFCBulk': [],
    'DVGrid': ['forward_model self', 'compute_dv_grid self',
               'compute_dv_tsvd self', 'compute_resolution self',
               'compute_posterior_covariance self', '_extract_info_dvs self'],
}
STREAMS = ('Stream', 'CorrStream')


def roots(p):
    for mod, names in PURE.items():
        m = p.modules.get('seismic.' + mod)
        if names == '*':
            if m is None:
                continue
            for n, f in m.funcs.items():
                if not n.startswith('_'):
                    yield f, []
            continue
        for e in names:
            w = e.split()
            f = p.func(mod + '.' + w[0], required=False)
            yield (f, w[1:]) if f is not None else (None, w[0])
    for cn, names in METHODS.items():
        c = p.cls(cn, required=False)
        for e in names:
            w = e.split()
            f = p.method(c, w[0]) if c is not None else None
            yield (f, w[1:], c) if f is not None else (None, w[0])


def asked(ev):
    """Only done when the caller asks for an in-place operation?"""
    for c in ev.pc:
        t = c.t
        if c.pol and t.op == 'param' and t.args[0] in (
                'inplace', 'correct_shift'):
            return True
    return False


def run(ctx):
    p = ctx.p
    ctx.rule('pure', 'no store, in-place operation or mutating call reaches '
             'an object of the caller')
    gone = []
    for r in roots(p):
        if r[0] is None:
            gone.append(r[1])
            continue
        f, exempt = r[0], r[1]
        cls = r[2] if len(r) > 2 else None
        i = Interp(p, budget=120000)
        st = State()
        sv = None
        if cls is not None:
            sv = i.param(st, 'self', cls.qual, None)
        i.run(f, None, sv, st)
        ctx.saw(i)
        name = short(f.qual)
        if cls is not None and f.cls is not cls:
            name = '%s.%s' % (short(cls.qual), f.name)
        bad = {}
        for e in i.events:
            if e.kind != 'mutate':
                continue
            o = e.extra['origin']
            if e.name == '.sort' and e.extra['kind'] != 'nd' and (
                    e.extra['cls'] or '').rsplit('.', 1)[-1] in STREAMS:
                continue
            if o[0] in exempt and f.name == '__init__':
                continue
            path = '.'.join(str(x) for x in o) + (
                '.%s' % e.extra['key'] if isinstance(
                    e.extra['key'], str) else '')
            if any(path == x or path.startswith(x + '.') for x in exempt):
                continue
            if asked(e):
                continue
            bad.setdefault(o[0], e)
        pars = list(f.params)
        for q in pars:
            if q in exempt:
                continue
            e = bad.get(q)
            ctx.ob('pure', '%s -> %s' % (name, q), e is None,
                   'changed by "%s" in %s' % (
                       e.name, short(e.func.qual)) if e else '',
                   e.where() if e else f.where())
    ctx.notes.append('functions not found: %s' % gone)
    if ctx.count('pure') < 40:
        raise AnalysisBroken('most functions of the table are gone')
