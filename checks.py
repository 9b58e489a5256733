# The registry of checks: property id -> explorers (sources in harness/), level, bounds, assumptions.
COMMON = ["values are small integers or dyadic rationals: the model and the code are compared up to 1e-9 (relative)",
          "Debug-style build of the headers from /repo with clang++-18 -O1; assertions of Eigen are turned into exceptions"]


def ex(src, name=None, **kw):
    d = {"src": src, "name": name or src.split(".")[0].replace("/", "_")}
    d.update(kw)
    if "libs" not in d:
        d["libs"] = ["-lboost_thread", "-lboost_system", "-lpthread"]
    return d


CHECKS = {}


def check(prop, explorers, bounds, assumptions=(), level="model_checking"):
    CHECKS[prop] = {"explorers": explorers, "bounds": bounds, "assumptions": list(assumptions) + COMMON, "level": level}


check("C01", [ex("c01_objective.cpp")],
      {"quick": "1..4 variables, 0..3 rows, all 8 equality types, all AS placements and index vectors; all sequences of 2..3 tasks; histories of 3 re-formations",
       "thorough": "as quick with 5 variables and histories of 4 re-formations"})
check("C02", [ex("c02_constraints.cpp")],
      {"quick": "levels of 1..3 tasks of all 20 types, 1..3 variables, 0..3 rows, all index vectors and placements; feasible sets compared on the whole grid {-2..2}^n",
       "thorough": "as quick with 4 variables and more row patterns"})
check("C03", [ex("c03_activity.cpp")],
      {"quick": "all 20 types, 2 rows, all bounds in {-1,0,1} incl. contradictory ones, all solutions on a 5x5 grid, companions of 5 kinds; container operation sequences of length 3",
       "thorough": "7x7 grid, container operation sequences of length 4"})
check("C04", [ex("c04_warmstart.cpp")],
      {"quick": "2 tasks on 2 levels, all types, histories of 2 iterations x {4 ways of forming} x {resize, unmodified} x {3 returned active sets}",
       "thorough": "histories of 3 iterations; three tasks"},
      ["a task reported as unmodified really has the formulation to which its recorded active set belongs"])
check("C05", [ex("c05_solution.cpp")],
      {"quick": "all structures of up to 3 parts with lengths 0..2 (all orders of ids); all pairs (old, new structure); histories of 3 re-initialisations; all accesses with offsets/lengths around the bounds and at the end of the address range",
       "thorough": "lengths 0..3, histories of 4"}, ["ids of the parts of one structure are distinct (as in all uses)"])
check("C06", [ex("c06_kkt.cpp")],
      {"quick": "1..3 variables, 0..2 constraint tasks of all equality types and placements, 4 kinds of objectives, 3 methods; histories of 2 problems with unsolvable problems in between",
       "thorough": "1..4 variables, histories of 3 problems"}, ["only problems with a regular KKT matrix (condition < 1e4) must be solved"])
check("C07", [ex("c07_protocol.cpp")],
      {"quick": "all 9 overloads of solve() x status x bad inputs x parameters over histories of 2 calls on one solver; hierarchies of 0..3 levels with up to 2 tasks",
       "thorough": "histories of 3 calls"})
check("C08", [ex("c08_condense.cpp")],
      {"quick": "horizons 1..4, 1..3 states, 1..3 controls, 1..3 outputs, all sequences of 3 kinds of dynamics per step, objects reused with another horizon, up to 3 groups of controls; maps compared on all basis vectors",
       "thorough": "horizons up to 5"})
check("C09", [ex("c09_blockmatrix.cpp")],
      {"quick": "blocks 1..3 x 1..3 (static, dynamic, mixed), 0..3 blocks in each direction, 3 sparsity types, all histories of 2 operations out of 8; all products", "thorough": "histories of 3 operations"},
      ["diagonal and triangular block matrices have as many block rows as block columns (as in all uses)"])
check("C10", [ex("c10_kronecker.cpp")],
      {"quick": "blocks 1..3 x 1..3, identity of size 2..4, 1..3 blocks, static and dynamic sizes, all sparsity types and all multiplication/evaluation routes", "thorough": "same"},
      ["diagonal and triangular block matrices have as many block rows as block columns (as in all uses)"])
check("C11", [ex("c11_dense.cpp")],
      {"quick": "matrices 0..4 x 0..4, all lists of up to 5 matrices of 6-7 shapes incl. empty ones, all sequences of 3 removals with indices up to size+1, all selections, all vectors over {-2,0,1,3}^3 x {..}^3", "thorough": "lists of up to 6 matrices, 4 removals"})
check("C12", [ex("c12_rotations.cpp")],
      {"quick": "11^3 angle triples x both Euler types (incl. singular orientations), 8x8 pairs of orientations, 125 velocities x 36 pairs of intervals, all histories of 3 state operations and of 4 operations of obstacles, all degrees/milliseconds in [-720,720]",
       "thorough": "25^3 angle triples (multiples of 30 degrees), histories of 4 operations"},
      ["the robot foot parameters are checked with their default values here"])
check("C13", [ex("c13_dynamics.cpp")],
      {"quick": "4 kinds of control x 1..4 integrators x 5 sampling times x 5 subsampling fractions; 4 heights x 5 sampling times x 6 fractions; 3^4 masses/heights; all basis vectors of (state, control), i.e., the linear maps are compared completely", "thorough": "same"},
      ["the continuous-time reference is exact (polynomials) or a Taylor series of the matrix exponential (error below 1e-12)"])
check("C14", [ex("c14_trajectories.cpp")],
      {"quick": "all boundary conditions (a, adot, b, bdot) over 4^4 values; all foot trajectories over 3 initial/final positions/velocities x 4 step heights x 3 ways of initialisation x reuse; derivatives at 9/17 points with formulas which are exact for cubic polynomials", "thorough": "same"})
check("C15", [ex("c15_stance_fsm.cpp")],
      {"quick": "1458 gaits (durations 0..3 ms, 0/2/3 steps, all first stances); all histories of 3 operations out of {shiftStance, shiftTime(1..5, 1..11)}, previews of all durations 0..12 in every final state; whole gaits in all portions of 1..7 ms",
       "thorough": "histories of 6 operations"},
      ["single and initial/final supports have a nonzero duration"])
check("C16", [ex("c16_wpg_horizon.cpp")],
      {"quick": "complete control loops of all gaits with 0/2/3/4 steps, 3 single support durations, all first stances, horizons of 2/3/6/9 intervals, 5 combinations of sampling/subsampling times; references changed at each of the first 17 iterations; 3 robots (foot parameters), with the length of the horizon, the height or the robot changed at one of the first iterations and changed back",
       "thorough": "horizons of 2..16 intervals, changes at each of the first 41 iterations"},
      ["durations of single, first and last stances are multiples of the sampling time, the duration of a transitional double support is its sampling time, the final stance covers the horizon, feet are aligned in the initial double support"])
check("C17", [ex("c17_wpg_prediction.cpp")],
      {"quick": "complete control loops (0/2/3/4 steps, 3 single support durations, 2 first stance durations, all first stances and turns) with horizons of 2/3/5 intervals and 3 combinations of sampling times, arbitrary solutions; states of the CoM queried each 10 ms of the horizon; 3 robots (foot parameters), with the length of the horizon, the height or the robot changed at one of the first iterations and changed back",
       "thorough": "horizons of 2..16 intervals, 5 combinations of sampling times"},
      ["durations of single, first and last stances are multiples of the sampling time, the duration of a transitional double support is its sampling time, the final stance covers the horizon"])
check("C18", [ex("c18_wpg_tasks.cpp")],
      {"quick": "complete control loops with 0/2/3 steps, 2 single support durations, all first stances and turns, horizons of 2/3/5 intervals; residuals of all tasks compared with the forward simulation at the origin and all unit vectors of the decision space (affine maps are equal); active set guesses over loops of all gaits of C16; 3 robots (foot parameters), with the length of the horizon, the height or the robot changed at one of the first iterations and changed back",
       "thorough": "4 steps, 3 single support durations, horizons of 2..16 intervals for the activity"},
      ["durations of single, first and last stances are multiples of the sampling time, the duration of a transitional double support is its sampling time, the final stance covers the horizon"])
check("C19", [ex("c19_mg_horizon.cpp")],
      {"quick": "all queues of up to 3 motions with 8 durations (0, fractions and multiples of the sampling time, unlimited), horizons of 1..3 intervals, all sequences of 3 updates with 4 shifts; single motions of all durations up to 20 ms",
       "thorough": "4 updates, 6 shifts"})
check("C20", [ex("c20_mg_prediction.cpp")],
      {"quick": "horizons of 1..4 intervals, 3 sampling times, 3 subsampling times, 4 robots, 3 initial states; profiles compared with the exact motion at the origin and all unit vectors of the decision space (affine maps are equal), states at each millisecond of the horizon; closed loops of 3 iterations with all ways of obtaining the next state; all pairs of (first, second) horizon length, sampling time, robot and motion on one object",
       "thorough": "horizons of 1..7 intervals, 5 iterations"})
check("C21", [ex("c21_mg_tasks.cpp")],
      {"quick": "all 10 tasks, horizons of 1..4 intervals, 3 sampling times, 3 subsampling times, 4 robots, 3 initial states, 4 iterations of the closed loop; residuals and bounds compared at the origin and all unit vectors of the decision space; all guessed active sets; objects reconfigured with another horizon, sampling time, robot (3 sets of bounds, masses, heights) and back",
       "thorough": "horizons of 1..7 intervals, 6 iterations"})
CONFIG = dict(include_first=["yaml03"], defs=['-DHUMOTO_DEFAULT_CONFIG_PREFIX="/proc/self/fd/"'], libs=["-lyaml-cpp", "-lboost_thread", "-lboost_system", "-lpthread"])
check("C22", [ex("c22_config_roundtrip.cpp", **CONFIG)],
      {"quick": "all configurable classes (15 plain ones and all tasks) x 2 formats x all ways of reading/writing x 3 sets of values; values of all types from grids (10 reals, 15 strings, all sizes 0..4 of vectors, 0..3 x 0..3 of matrices, nested lists); files of up to 3 objects of 5 classes with all sequences of 3 reads; all stacks of up to 2 tasks on up to 3 levels of 3 configurable problems",
       "thorough": "7 classes and sequences of 4 reads, stacks of up to 3 tasks"},
      ["names of nodes of a file are distinct", "the YAML bridge runs over yaml-cpp 0.8 through an adaptor of the 0.3 interface"])
check("C23", [ex("c23_config_strictness.cpp", **CONFIG)],
      {"quick": "all subsets of up to 3 missing entries (nested ones included) of all classes x 3 orders x 3 kinds of strictness x 2 formats x fresh/used object; all entries x up to 25 wrong values; all truncations of files with two objects; all sequences of up to 3 reads with 3 sets of values; 12 kinds of defects of stacks at all positions; all sections of all shipped files",
       "thorough": "all subsets of up to 4 missing entries"},
      ["the YAML bridge runs over yaml-cpp 0.8 through an adaptor of the 0.3 interface", "missing entries of a nested object take defaults of the class of this object"])
check("C24", [ex("c24_logger_threads.cpp", include_first=["sched"], runtime="sched/mcsched.cpp", instrument=["-Xclang", "-fsanitize=thread"],
      libs=["-lboost_system", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"])],
      {"quick": "all schedules with up to 2 preemptions of 1..3 threads which log 1..6 messages (8 kinds of data), with all ways of initialisation and finishing, slow and fast devices; backlogs of up to 3300 messages; all histories of up to 4 operations on one logger (log, 2 streams, 2 files, a bad file, pause) with 1 preemption; all memory accesses checked for races",
       "thorough": "up to 3 preemptions, up to 7 messages and all kinds of data; histories of 5 operations with 2 preemptions"},
      ["boost::mutex and boost::thread behave as documented (they are replaced with a controlled scheduler)", "sequential consistency (justified by the absence of data races, which is checked)", "operations which change the output of a logger are not called concurrently with its other operations"])
CHRONO = CONFIG["libs"] + ["-lboost_chrono"]
check("C25", [ex("c25_log_content.cpp", name="c25_threaded_values", defs=["-DMC_LOG_VALUES"], libs=CHRONO),
              ex("c25_log_content.cpp", name="c25_direct_values", defs=["-DMC_LOG_VALUES", "-DMC_NO_LOGGER_THREAD"], libs=CHRONO),
              ex("c25_log_content.cpp", name="c25_threaded", **dict(CONFIG, libs=CHRONO)),
              ex("c25_log_content.cpp", name="c25_direct", **dict(CONFIG, libs=CHRONO, defs=CONFIG["defs"] + ["-DMC_NO_LOGGER_THREAD"]))],
      {"quick": "all kinds of values (grids of 14 reals, 15 strings, all vectors of up to 3 elements, 15 types of matrices of all sizes 0..3 x 0..3 with 14 kinds of expressions), names of up to 4 parts, all loggable classes with 3 parents and 3 ways of naming, all 20 types of tasks, all stacks of up to 3 tasks on 3 levels, horizons and loops of both controllers; both loggers (with and without a thread)",
       "thorough": "stacks of up to 4 tasks, longer loops, histories of 6 operations on a logger"})

BRIDGES = dict(CONFIG, libs=CHRONO, include_first=["yaml03", "mocks"])
check("C26", [ex("c26_qp_bridges.cpp", **BRIDGES)],
      {"quick": "all hierarchies with 1..2 objectives of 8 types, up to 2 constraint tasks of all 20 types (1..2 rows, 4 kinds of bounds incl. equal and infinite ones), 2..3 variables, 2 regularizations x 3 bridges: problems compared on a grid of 400..1300 points, solutions with an exact solver; sequences of 3 problems; all answers of the libraries x 3 classes of solutions; all working sets of up to 3 constraints; all guesses out of 5^3; all 9 ways of calling in sequences of 2; all options with each one missing x 2 formats",
       "thorough": "3 constraint tasks, sequences of 4 problems and 3 calls"},
      ["stand-ins of the QP libraries replace the real ones, which are not available"])
check("C27", [ex("c27_rbdl.cpp", **BRIDGES)],
      {"quick": "all trees of up to 3 links with joints of 5 kinds, fixed and 3 implementations of floating bases, 3 states each, all tags and all subsets of links; all histories of up to 4 operations (construct, load, update, copy) with 3 robots; all wrong requests",
       "thorough": "trees of up to 4 links, histories of 5 operations"},
      ["a stand-in of RBDL replaces the real one, which is not available"])
check("C28", [ex("c28_pepper_ik.cpp", **BRIDGES)],
      {"quick": "3 models: 33 patterns of joint angles x 7 orientations x 3 positions of the root; all histories of 4 operations out of loading 3 robots, updates and saving, and of 4 operations of the controller (update, 3 velocities of tags, desired poses, parsing, states); limits of all 15 joints and 3 wheels at 7 offsets and 8 velocities; all histories of up to 4 operations (update with 6 states, save, command, correct) with all transition checks in between; all tasks x 9 gains x 9 axes, tags x reconfigurations; all pairs of 13 tasks in configuration files of 2 formats; closed loops with all shipped hierarchies, the regression loop and reference data of the repository",
       "thorough": "histories of 5 (6 for the controller) operations, loops of 400 steps"},
      ["a stand-in of RBDL replaces the real one, which is not available"])
