"""Which binary checks which property."""
def span(a, b): return ['C%02d' % i for i in range(a, b + 1)]
HARNESSES = {
    'transmissions': dict(properties=span(20, 24), sources=['transmissions.cpp'], repo=[], fuzz={}),
    'joint_limits': dict(properties=span(28, 33), sources=['joint_limits.cpp'], repo=[], fuzz={}),
    'hardware_interface': dict(properties=span(14, 17), sources=['hardware_interface.cpp'], repo=[], fuzz={}),
    'controller_interface': dict(properties=['C12', 'C13'], sources=['controller_interface.cpp'], repo=[], fuzz={}),
    'combined_robot_hw': dict(properties=['C18', 'C19'], sources=['combined_robot_hw.cpp'], repo=['combined_robot_hw/src/*.cpp'], fuzz={}),
    'controller_manager': dict(properties=span(1, 11), sources=['controller_manager.cpp'], repo=['controller_manager/src/*.cpp'], fuzz={}, flags=['-D_GLIBCXX_SANITIZE_VECTOR=1'],
        cxx='clang++', repo_flags=['-fsanitize-coverage=bb,trace-loads,trace-stores']),   # memory accesses become yield points (schedule.h)
}
HARNESSES['transmission_loaders'] = dict(properties=span(25, 27), sources=['transmission_loaders.cpp'], libs=['-ltinyxml'],
    repo=['transmission_interface/src/*.cpp'],
    fuzz={'C25': ['bytes', 'mutated', 'generated'], 'C26': ['garbage', 'loaders'], 'C27': ['end_to_end']})
HARNESSES['robot'] = dict(properties=['C34', 'C44'], sources=['robot.cpp'], libs=['-ltinyxml'],
    repo=['transmission_interface/src/*.cpp', 'combined_robot_hw/src/*.cpp', 'controller_manager/src/*.cpp'], fuzz={})
HARNESSES['races'] = dict(properties=['C45'], sources=['races.cpp'], user=['races_user.cpp'], tsan=True, repo=['combined_robot_hw/src/*.cpp', 'controller_manager/src/*.cpp'], fuzz={})   # only user and repo are instrumented
PYTHON = dict([(i, 'cm_python.py') for i in span(35, 41)] + [(i, 'rqt_python.py') for i in span(42, 43)])
# quick runs multiply the numbers of cases stated in the harnesses
QUICK_SCALE = dict([('C%02d' % i, 3) for i in range(1, 34)] + [('C%02d' % i, 5) for i in range(2, 12)] + [('C%02d' % i, 3) for i in range(35, 44)] + [(i, 2) for i in ('C01', 'C09', 'C12', 'C14')] + [(i, 1) for i in ('C25', 'C28')] + [('C34', 2), ('C44', 2), ('C45', 2)] + [(i, 8) for i in ('C15', 'C16', 'C17', 'C18', 'C21', 'C22', 'C23', 'C31', 'C33')])
THOROUGH_SCALE = dict((i, 4) for i in span(1, 11) + ['C34', 'C44', 'C45'] + span(35, 43))    # as far as THOROUGH_LIMIT lets them
QUICK_LIMIT = 150     # seconds given to one quick run (it normally needs far less)
THOROUGH_LIMIT = 600
