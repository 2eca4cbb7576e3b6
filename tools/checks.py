ALL = ['C01_conserve', 'C02_conservation', 'C03_apply', 'C04_iterate', 'C05_reuse', 'C06_quadquad', 'C07_hull', 'C08_quadline', 'C09_flows', 'C10_flow',
       'C11_node', 'C12_finder', 'C13_overlap', 'C14_octree', 'C15_iterators', 'C16_solver', 'C17_simplices', 'C18_generators', 'C19_tripolar', 'C20_parser']
MINI = {'quick': -1, 'thorough': 0}


def c22():
    runs = [dict(src='C22_histories.cpp'), dict(src='C22_histories.cpp', variant='asan', tier=MINI)]
    runs += [dict(src=s + '.cpp', variant='asan', tier={'quick': -1, 'thorough': -1}) for s in ALL]
    # the same executions with uninitialised memory holding one pattern or another
    for s in ['C22_histories'] + ALL:
        runs.append(dict(src=s + '.cpp', variant='pat', fill=165, diff=s, tier={'quick': -1, 'thorough': -1}))
        runs.append(dict(src=s + '.cpp', variant='zero', fill=0, diff=s, tier={'quick': -1, 'thorough': -1}))
    runs.append(dict(src='C22_histories.cpp', variant='memcheck', tier={'quick': -1, 'thorough': -1}, only='thorough'))
    return runs


CHECKS = {
    'C07': dict(runs=[dict(src='C07_hull.cpp')]),
    'C01': dict(runs=[dict(src='C01_conserve.cpp')]),
    'C02': dict(runs=[dict(src='C02_conservation.cpp')]),
    'C06': dict(runs=[dict(src='C06_quadquad.cpp')]),
    'C08': dict(runs=[dict(src='C08_quadline.cpp')]),
    'C09': dict(runs=[dict(src='C09_flows.cpp')]),
    'C10': dict(runs=[dict(src='C10_flow.cpp')]),
    'C11': dict(runs=[dict(src='C11_node.cpp')]),
    'C12': dict(runs=[dict(src='C12_finder.cpp')]),
    'C13': dict(runs=[dict(src='C13_overlap.cpp')]),
    'C03': dict(runs=[dict(src='C03_apply.cpp')]),
    'C04': dict(runs=[dict(src='C04_iterate.cpp')]),
    'C05': dict(runs=[dict(src='C05_reuse.cpp')]),
    'C14': dict(runs=[dict(src='C14_octree.cpp')]),
    'C15': dict(runs=[dict(src='C15_iterators.cpp')]),
    'C17': dict(runs=[dict(src='C17_simplices.cpp')]),
    'C16': dict(runs=[dict(src='C16_solver.cpp')]),
    'C18': dict(runs=[dict(src='C18_generators.cpp')]),
    'C19': dict(runs=[dict(src='C19_tripolar.cpp')]),
    'C20': dict(runs=[dict(src='C20_parser.cpp')]),
    'C21': dict(runs=[dict(py='C21_python.py', needs_lib=True)]),
    'C23': dict(runs=[dict(src='C23_objects.cpp'), dict(src='C23_threads.cpp', variant='tsan')]),
    'C22': dict(runs=c22()),
}
NOT_APPLICABLE = {}
