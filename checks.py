# The checks: property -> engines.  quick/thorough: number of executions and a wall-clock cap (s) that
# only stops the run early; verdicts never depend on time.
def vrt(src, q, t, qb=45, tb=420, **kw):
    return dict(mode='vrt', src=src, quick=dict(execs=q, budget=qb), thorough=dict(execs=t, budget=tb), **kw)


def native(mode, src, q, t, qb=30, tb=240, procs=4, **kw):
    d = dict(mode=mode, src=src, thorough=dict(execs=t, budget=tb, procs=procs), **kw)
    if q:
        d['quick'] = dict(execs=q, budget=qb, procs=procs)
    return d


POLY = ['poly.cpp', 'poly_a.cpp', 'poly_b.cpp', 'poly_c.cpp', 'poly_d.cpp']

CHECKS = {
    'C12': dict(engines=dict(vrt=vrt(['c12_bwos.cpp'], 200000, 6000000))),
    'C13': dict(engines=dict(vrt=vrt(['c13_queues.cpp'], 200000, 6000000))),
    'C09': dict(engines=dict(vrt=vrt(['c09_run_loop.cpp'], 80000, 2500000))),
    'C10': dict(engines=dict(vrt=vrt(['c10_pool.cpp'], 250000, 6000000))),
    'C11': dict(engines=dict(vrt=vrt(['c11_bulk.cpp', 'c11_bulk_b.cpp', 'c11_bulk_c.cpp', 'c11_parallel.cpp', 'c11_task_scheduler.cpp'], 220000, 8000000))),
    'C21': dict(engines=dict(vrt=vrt(['c21_timed.cpp'], 200000, 8000000))),
    'C07': dict(engines=dict(vrt=vrt(['c07_when_all.cpp'], 200000, 8000000))),
    'C14': dict(engines=dict(vrt=vrt(['c14_scope.cpp'], 200000, 8000000))),
    'C15': dict(engines=dict(vrt=vrt(['c15_spawn.cpp'], 150000, 5000000))),
    'C16': dict(engines=dict(vrt=vrt(['c16_async_scope.cpp'], 150000, 5000000))),
    'C17': dict(engines=dict(vrt=vrt(['c17_split.cpp'], 300000, 8000000))),
    'C18': dict(engines=dict(vrt=vrt(['c18_when_any.cpp'], 200000, 8000000))),
    'C23': dict(engines=dict(vrt=vrt(['c23_repeat.cpp'], 150000, 6000000))),
    'C01': dict(engines=dict(vrt=vrt(['c01_once.cpp', *POLY], 300000, 5000000))),
    'C02': dict(engines=dict(vrt=vrt(['c02_gone.cpp', *POLY], 300000, 5000000))),
    'C03': dict(engines=dict(vrt=vrt(['c03_release.cpp', *POLY], 300000, 5000000))),
    'C04': dict(engines=dict(vrt=vrt(['c04_sequential.cpp', 'c04_categories.cpp', *POLY], 300000, 5000000))),
    'C05': dict(engines=dict(vrt=vrt(['c05_exceptions.cpp', 'c05_nothrow.cpp', 'c05_nothrow_b.cpp', *POLY], 300000, 5000000))),
    'C06': dict(engines=dict(vrt=vrt(['c06_where.cpp', *POLY], 300000, 5000000))),
    'C25': dict(engines=dict(vrt=vrt(['c25_stops.cpp', *POLY], 300000, 5000000))),
    'C26': dict(engines=dict(vrt=vrt(['c26_truth.cpp', 'c26_behavior.cpp', 'c26_behavior_b.cpp', 'c05_nothrow.cpp', 'c05_nothrow_b.cpp', *POLY], 300000, 5000000))),
    'C24': dict(engines=dict(vrt=vrt(['c24_env.cpp', 'c24_shapes.cpp', 'c24_attrs.cpp', 'c24_nested.cpp', 'c24_nested_b.cpp', 'c24_tools.cpp', *POLY], 200000, 5000000))),
    'C20': dict(engines=dict(vrt=vrt(['c20_sequences.cpp', 'c20_merge_each.cpp'], 250000, 6000000))),
    'C19': dict(engines=dict(vrt=vrt(["c19_tasks.cpp", "c19_awaitables.cpp"], 150000, 5000000))),
    'C29': dict(kinds="data-race", engines=dict(vrt=vrt(['c07_when_all.cpp', 'c08_stop.cpp', 'c09_run_loop.cpp', 'c10_pool.cpp', 'c12_bwos.cpp', 'c13_queues.cpp', 'c14_scope.cpp', 'c15_spawn.cpp', 'c16_async_scope.cpp', 'c17_split.cpp', 'c18_when_any.cpp', 'c20_merge_each.cpp', 'c21_timed.cpp', 'c29_publish.cpp'], 300000, 8000000))),
    'C28': dict(engines=dict(vrt=vrt(['c28_parallel.cpp', 'c28_default.cpp', 'c28_task_scheduler.cpp'], 300000, 8000000))),
    'C22': dict(engines=dict(vrt=vrt(['c22_any.cpp', 'c22_sender.cpp', 'c22_sched.cpp', 'c22_func.cpp'], 250000, 8000000))),
    'C27': dict(engines=dict(vrt=vrt(['c27_uring.cpp'], 300000, 8000000))),
    'C30': dict(engines=dict(vrt=vrt(['c30_cleanup.cpp'], 200000, 6000000))),
    'C31': dict(engines=dict(vrt=vrt(['c31_asio.cpp'], 600000, 8000000))),
    'C08': dict(engines=dict(vrt=vrt(['c08_stop.cpp'], 120000, 3000000))),
}
