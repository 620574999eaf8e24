"""Which binary, build flavours, case counts and evidence rules decide each property."""

FLAVOURS = {
    # optimised, no instrumentation: volume for the behavioural monitors
    'opt': {'cxx': 'clang++', 'flags': ['-O2', '-fno-omit-frame-pointer', '-ffp-contract=off']},
    # address + undefined behaviour, every report fatal
    'asan': {'cxx': 'clang++', 'flags': ['-O1', '-fno-omit-frame-pointer', '-ffp-contract=off',
                                         '-fsanitize=address,undefined,float-cast-overflow',
                                         '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all',
                                         '-D_GLIBCXX_ASSERTIONS']},
    # uninitialised reads
    'msan': {'cxx': 'clang++', 'flags': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=memory',
                                         '-fsanitize-memory-use-after-dtor', '-fno-sanitize-recover=all',
                                         '-fsanitize-ignorelist=' + __file__.rsplit('/', 1)[0] + '/harness/msan_ignore.txt']},
    'tsan': {'cxx': 'clang++', 'flags': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-fno-sanitize-recover=all']},
}

BINARIES = {
    'ekf': {'sources': ['ekf_sim.cpp', 'ekf_step.cpp']},
    'track': {'sources': ['ekf_sim.cpp', 'ekf_track.cpp', 'ekf_sym.cpp']},
    'origin': {'sources': ['ekf_sim.cpp', 'ekf_origin.cpp']},
    'terrain': {'sources': ['ekf_sim.cpp', 'ekf_terrain.cpp']},
    'out': {'sources': ['ekf_sim.cpp', 'ekf_out.cpp']},
    'hostile': {'sources': ['ekf_sim.cpp', 'ekf_hostile.cpp']},
    'inv': {'sources': ['ekf_sim.cpp', 'ekf_inv.cpp']},
    'mon': {'sources': ['ekf_sim.cpp', 'ekf_mon.cpp']},
    'reset': {'sources': ['ekf_sim.cpp', 'ekf_reset.cpp']},
    'modes': {'sources': ['ekf_sim.cpp', 'ekf_modes.cpp']},
    'time': {'sources': ['ekf_sim.cpp', 'ekf_time.cpp']},
    'util': {'sources': ['util_basic.cpp', 'util_geo.cpp', 'util_air.cpp'], 'filter': False},
}


def opt(q, t):
    return [{'flavour': 'opt', 'cases': (q, t)}]


def opt_asan(q, t, qa, ta):
    return [{'flavour': 'opt', 'cases': (q, t)}, {'flavour': 'asan', 'cases': (qa, ta)}]


CHECKS = {
    'U01': {'technique': 'online trace monitor against a history model, plus ASan/UBSan',
            'binary': 'util', 'runs': opt_asan(40000, 800000, 4000, 60000),
            'rule': 'a case counts when at least two queries ran and one returned a sample; cases are distinct by the sequence of (hit/miss, fill level, query offset)',
            'must_observe': ['pop_hit', 'pop_miss', 'pop_miss_empty', 'full', 'allocations']},
    'U02': {'technique': 'conservation monitor over random sample streams, plus ASan/UBSan',
            'binary': 'util', 'runs': opt_asan(20000, 300000, 1500, 20000),
            'rule': 'distinct (inputs accumulated, rotation size, clipping, target, input interval) of emitted samples',
            'must_observe': ['outputs', 'outputs_with_clipping', 'long_runs']},
    'U03': {'technique': 'online oracle over random operands, plus UBSan',
            'binary': 'util', 'runs': opt_asan(4000, 100000, 200, 4000),
            'rule': 'distinct random operands and filter constants',
            'must_observe': ['sums', 'filter_runs', 'refused_parameters']},
    'U04': {'technique': 'online rotation-algebra oracle, plus UBSan',
            'binary': 'util', 'runs': opt_asan(8000, 200000, 400, 8000),
            'rule': 'distinct quantised attitudes',
            'must_observe': ['used_321', 'used_312', 'near_singular_attitudes']},
    'G01': {'technique': 'online double-precision geodesy oracle, plus UBSan',
            'binary': 'util', 'runs': opt_asan(20000, 400000, 1000, 10000),
            'rule': 'distinct (reference, point) pairs with non-zero distance',
            'must_observe': ['date_line_crossings', 'high_latitude']},
    'G02': {'technique': 'online double-precision geodesy oracle, plus UBSan',
            'binary': 'util', 'runs': opt_asan(12000, 250000, 600, 8000),
            'rule': 'distinct pairs of points with non-zero distance',
            'must_observe': ['date_line_crossings', 'antipodal', 'short_range', 'quadrant_ne', 'quadrant_se', 'quadrant_nw', 'quadrant_sw']},
    'G03': {'technique': 'online double-precision geodesy oracle, plus UBSan',
            'binary': 'util', 'runs': opt_asan(12000, 250000, 600, 8000),
            'rule': 'distinct lines with a vehicle position beside them',
            'must_observe': ['line_left', 'line_right', 'line_past_end', 'arc_clockwise', 'arc_anticlockwise', 'arc_out_of_sector', 'arc_inside', 'arc_outside']},
    'G04': {'technique': 'online oracle from a table snapshot, plus ASan/UBSan',
            'binary': 'util', 'runs': opt_asan(4000, 60000, 300, 3000),
            'rule': 'distinct positions looked up',
            'must_observe': ['table_entries', 'wrapped_longitude', 'beyond_pole']},
    'S01': {'technique': 'online state-machine monitor over random histories, plus UBSan',
            'binary': 'util', 'runs': opt_asan(8000, 150000, 400, 6000),
            'rule': 'distinct (validity, regularity, sample present, stuck, stale, workload phase, rate) situations',
            'must_observe': ['healthy_steps', 'stuck_rejections', 'tilt_rejections', 'limit_rejections', 'quality_hysteresis_rejections', 'stale_steps']},
    'W01': {'technique': 'lock-step double-precision reference filter as monitor, plus ASan/UBSan',
            'binary': 'util', 'runs': opt_asan(10000, 200000, 600, 6000),
            'rule': 'distinct reference-filter states reached',
            'must_observe': ['initialisations', 'initialisation_refused', 'airspeed_fused', 'sideslip_fused', 'rotated_pairs', 'degenerate_runs']},
    'W02': {'technique': 'lock-step reference filter and convergence monitor under injected outliers',
            'binary': 'util', 'runs': opt_asan(6000, 120000, 300, 4000),
            'rule': 'distinct reference-filter states reached',
            'must_observe': ['airspeed_rejected', 'airspeed_reset', 'sideslip_rejected', 'convergence_runs', 'wind_shifts']},
    'Y01': {'technique': 'lock-step reference filter bank and convergence monitor, plus ASan/UBSan',
            'binary': 'util', 'runs': opt_asan(1500, 30000, 80, 1200),
            'rule': 'distinct weight vectors after velocity fusions compared with the reference bank',
            'must_observe': ['velocity_fusions', 'convergence_checks', 'bank_restarts', 'hostile_runs', 'mode_change_runs']},
    'E04': {'technique': 'lock-step double-precision strapdown reference as online monitor of every filter step',
            'binary': 'ekf', 'runs': opt(100, 4000),
            'rule': 'flights; within them each filter step without a measurement is compared with the reference (counter compared)',
            'must_observe': ['compared', 'checked state: attitude', 'checked state: velocity', 'checked state: position', 'checked state: wind']},
    'E05': {'technique': 'lock-step double-precision covariance propagation (independent Jacobians) as online monitor of every filter step',
            'binary': 'ekf', 'runs': opt(100, 4000),
            'rule': 'flights; within them each filter step without a measurement is compared with the reference (counter compared)',
            'must_observe': ['compared', 'checked covariance: attitude/attitude', 'checked covariance: wind/wind', 'checked covariance: body field/body field',
                             'accel bias held', 'gyro bias noise compared']},
    'E06': {'technique': 'lock-step double-precision Kalman update reference as online monitor of every filter step',
            'binary': 'ekf', 'runs': opt(100, 4000),
            'rule': 'flights; within them each filter step with a velocity, position or height measurement is compared with the reference',
            'must_observe': ['fused gps velocity', 'fused gps vertical velocity', 'fused gps position', 'fused gps height', 'fused baro height', 'fused range height',
                             'fused ev height', 'fused ev position', 'fused ev velocity', 'fused ev vertical velocity', 'fused aux velocity', 'fused synthetic position',
                             'checked ev position change innovation']},
    'E07': {'technique': 'lock-step double-precision Kalman update reference as online monitor of every filter step',
            'binary': 'ekf', 'runs': opt(100, 4000),
            'rule': 'flights; within them each filter step with a magnetic, heading, yaw or declination measurement is compared with the reference',
            'must_observe': ['fused magnetic heading', 'fused magnetic field (all states)', 'fused magnetic field (field states only)', 'fused vision yaw', 'fused gps yaw',
                             'fused declination', 'fused declination (first)', 'fused static yaw', 'fused zero yaw innovation', 'synthetic magnetic z skipped']},
    'E08': {'technique': 'lock-step double-precision Kalman update reference as online monitor of every filter step',
            'binary': 'ekf', 'runs': opt(100, 4000),
            'rule': 'flights; within them each filter step with an airspeed, sideslip, drag or flow measurement is compared with the reference',
            'must_observe': ['fused airspeed (all states)', 'fused airspeed (wind only)', 'fused sideslip (all states)', 'fused sideslip (wind only)', 'fused drag', 'fused flow',
                             'flow without gyro', 'flow gyro bias updated']},
    'E09': {'technique': 'lock-step double-precision gate reference under injected outliers, online monitor of every filter step',
            'binary': 'ekf', 'runs': opt(100, 4000),
            'rule': 'flights with outliers on every sensor; each step with a measurement outside its gate must leave the reference prediction',
            'must_observe': ['rejected gps velocity', 'rejected gps vertical velocity', 'rejected gps position', 'rejected baro height', 'limited baro height', 'rejected ev position',
                             'rejected ev velocity', 'rejected magnetic field', 'rejected magnetic heading', 'limited magnetic heading', 'rejected airspeed', 'limited gps vertical velocity']},
    'E02': {'technique': 'online invariant monitor over faulty and hostile flights',
            'binary': 'inv', 'runs': opt(800, 16000),
            'rule': 'flights; every state and output is inspected after every filter update (evaluations)',
            'must_observe': ['hostile flights', 'limit reached', 'at or beyond limit: accel bias', 'at or beyond limit: gyro bias', 'at or beyond limit: velocity',
                             'at or beyond limit: earth field', 'at or beyond limit: body field']},
    'E03': {'technique': 'online invariant monitor over faulty flights (symmetry, limits, Cholesky definiteness test)',
            'binary': 'inv', 'runs': opt(800, 16000),
            'rule': 'flights; the whole covariance matrix is inspected after every filter update (evaluations)',
            'must_observe': ['definiteness checked']},
    'E11': {'technique': 'lock-step reconstruction of the output observer from its published outputs, online monitor',
            'binary': 'out', 'runs': opt(1200, 30000),
            'rule': 'flights; every published output is compared with the propagation and correction law (counters outputs/corrections compared)',
            'must_observe': ['outputs compared', 'corrections compared (short)', 'corrections compared (long)', 'propagation between updates', 'reset followed',
                             'attitude reset followed', 'vertical derivative compared']},
    'E12': {'technique': 'online continuity monitor: every jump of an output or of the delayed estimate must be announced',
            'binary': 'out', 'runs': opt(1000, 30000),
            'rule': 'distinct (mode, set of resets) situations in which a reset was announced',
            'must_observe': ['reset velNE', 'reset velD', 'reset posNE', 'reset posD', 'reset quat', 'reset by command', 'several resets in one update']},
    'E01': {'technique': 'address, undefined-behaviour and uninitialised-read sanitizers under hostile calls, corrupted flights and full read-out',
            'binary': 'hostile', 'runs': [{'flavour': 'asan', 'cases': (400, 12000)}, {'flavour': 'msan', 'cases': (400, 12000)}],
            'rule': 'distinct (mode, fault, rejection) end states of the call sequences',
            'must_observe': ['corrupted samples', 'corrupted time stamps', 'random call sequences', 'flights', 'parameters changed in use', 'command: origin']},
    'E22': {'technique': 'bitwise comparison of paired instances (poisoned memory, other instances, threads) and thread sanitizer',
            'binary': 'hostile', 'runs': [{'flavour': 'opt', 'cases': (300, 12000)}, {'flavour': 'tsan', 'cases': (12, 400)}],
            'rule': 'distinct (end mode, pairing) of the compared flights',
            'must_observe': ['paired flights', 'paired flights with others', 'concurrent flights', 'other instances destroyed', 'read-outs of one instance']},
    'E17': {'technique': 'online monitor of reported validity against the observed fusion history',
            'binary': 'mon', 'runs': opt(1500, 20000),
            'rule': 'distinct (status word, solution status, validity) situations',
            'must_observe': ['position became valid', 'position became invalid', 'dead reckoning began', 'wind dead reckoning', 'gps glitch situations', 'valid while dead reckoning']},
    'E23': {'technique': 'before/after monitor of every published quantity around each request, trace monitor of saved calibration',
            'binary': 'mon', 'runs': opt(1500, 20000),
            'rule': 'flights with requests or magnetic mode changes',
            'must_observe': ['imu bias reset', 'gyro bias reset', 'accel bias reset', 'mag bias reset', 'three-axis fusion stopped', 'three-axis fusion restarted']},
    'E26': {'technique': 'online monitor of initialisation against simulated truth and configuration',
            'binary': 'mon', 'runs': opt(1500, 30000),
            'rule': 'distinct initial states',
            'must_observe': ['initialisations', 'magnetic initialisations', 'tilt alignments', 'start: too light', 'start: too heavy', 'start: turning', 'start: no mag', 'start: no baro']},
    'E27': {'technique': 'lock-step reference computation over the inertial stream',
            'binary': 'mon', 'runs': opt(1500, 20000),
            'rule': 'distinct final vibration levels',
            'must_observe': ['samples at rest', 'samples in air', 'samples moving on ground', 'came to rest', 'motion detected']},
    'E13': {'technique': 'online monitor of aiding activation, exclusion and time-out rules against the data that arrived',
            'binary': 'modes', 'runs': opt(1000, 12000),
            'rule': 'distinct sequences of observation times',
            'must_observe': ['updates with poor flow', 'started: gps', 'started: flow', 'started: vision position', 'started: vision velocity', 'started: vision yaw', 'started: gps yaw', 'stopped: gps', 'stopped: flow', 'stopped: vision position', 'stopped: vision yaw', 'stopped: airspeed', 'in use: gps velocity', 'in use: vision position', 'in use: airspeed', 'in use: auxiliary velocity', 'observed: sideslip', 'observed: drag']},
    'E15': {'technique': 'online monitor of height source selection against the data that arrived',
            'binary': 'modes', 'runs': opt(2000, 12000),
            'rule': 'distinct sequences of height sources',
            'must_observe': ['updates with baro height', 'updates with gps height', 'updates with range height', 'updates with vision height', 'range aid started', 'switched: gps to baro', 'switched: baro to gps', 'switched: range to baro', 'long drop-out of the source in use: baro', 'long drop-out of the source in use: gps', 'innovation continuity checks']},
    'E16': {'technique': 'online monitor of magnetic modes, field disturbance and yaw alignment against simulated truth and the data that arrived',
            'binary': 'modes', 'runs': opt(1000, 12000),
            'rule': 'distinct sequences of magnetic modes and end headings',
            'must_observe': ['three-axis fusion began', 'three-axis fusion gave way to heading', 'in-flight alignment', 'initial headings compared', 'heading with known declination', 'strength outside the gate', 'disturbance reported', 'three-axis updates with declination', 'three-axis while turning', 'heading while quiet in flight', 'yaw alignments']},
    'E24': {'technique': 'online monitor recomputing the decision from the observed innovations, clipping and truth',
            'binary': 'modes', 'runs': opt(1000, 12000),
            'rule': 'distinct (times of report, worst vertical error) flights',
            'must_observe': ['reported by agreement of height and velocity', 'reported with clipping', 'cleared', 'strong errors', 'recoveries', 'flights without faults', 'updates while reported']},
    'E25': {'technique': 'online monitor of wind state activation, initialisation and use against the data that arrived and simulated truth',
            'binary': 'modes', 'runs': opt(1000, 12000),
            'rule': 'distinct (times of activation, final wind error) flights',
            'must_observe': ['activated', 'deactivated', 'activated from airspeed', 'activated from zero', 'initial uncertainty compared', 'airspeed observations', 'sideslip observations', 'drag observations', 'winds compared with airspeed', 'winds compared with drag']},
    'E10': {'technique': 'trace monitor: delivered inertial data and fused samples reconciled with everything that was put in',
            'binary': 'time', 'runs': opt(1000, 12000),
            'rule': 'distinct sequences of fused barometer times',
            'must_observe': ['inertial samples compared', 'barometer averages matched', 'barometer averages of several samples', 'flights beyond 2^32 us', 'gps velocity', 'gps height', 'vision position', 'vision velocity', 'vision height', 'airspeed', 'auxiliary velocity', 'magnetometer']},
    'E14': {'technique': 'online monitor: reference evaluation of every quality check on each GPS message against the reported status, drift metrics, origin and GPS use',
            'binary': 'time', 'runs': opt(1500, 15000),
            'rule': 'distinct sequences of reported check results and origin states',
            'must_observe': ['flights', 'origin set', 'gps aiding started', 'checked at rest', 'checked moving on ground', 'checked in the air', 'messages without fix', 'messages failing the checks', 'messages passing the checks', 'failed: fix', 'failed: satellites', 'failed: dilution', 'failed: horizontal accuracy', 'failed: vertical accuracy', 'failed: speed accuracy', 'failed: horizontal drift', 'failed: vertical drift', 'failed: horizontal speed', 'failed: vertical speed']},
    'E18': {'technique': 'online monitor of origin, local and global position against each other and simulated truth, with origin commands at any time',
            'binary': 'origin', 'runs': opt(1500, 20000),
            'rule': 'distinct histories of the global position error',
            'must_observe': ['flights', 'origin from GPS', 'origin from GPS after a command', 'origin commanded before GPS', 'origin moved while navigating', 'origin moved with GPS height', 'origin moved with range finder height', 'origin moved with barometric height']},
    'E19': {'technique': 'online one-step reference of the terrain estimator, its validity and the control limits, fed with the same samples; comparison with simulated truth',
            'binary': 'terrain', 'runs': opt(1500, 20000),
            'rule': 'distinct histories of height above ground and range use',
            'must_observe': ['flights', 'on ground', 'initialised in the air by range', 'range samples used', 'range samples fused', 'range samples rejected', 'terrain reset to range', 'flow used for terrain', 'flow fused for terrain', 'held at the ground clearance', 'valid', 'not valid', 'limits of optical flow', 'limits of the range finder', 'no limits', 'height above ground compared with truth']},
    'E20': {'technique': 'online comparison of the estimate with simulated truth over whole flights, with sensor sets, noise, mounting, wind and drop-outs varied',
            'binary': 'track', 'runs': opt(1500, 20000),
            'rule': 'distinct histories of the estimation errors',
            'must_observe': ['flights', 'gps', 'fixed wing', 'gps heading', 'vision with heading', 'vision rotated', 'vision velocity', 'optical flow', 'drag', 'range height']},
    'E21': {'technique': 'online comparison of paired executions of the filter on a flight and its transform under each symmetry',
            'binary': 'track', 'runs': opt(2500, 20000),
            'rule': 'distinct flights',
            'must_observe': ['pairs', 'time shifted', 'mirrored', 'rotated', 'vision frame moved', 'height datum moved']},
    'E28': {'technique': 'online comparison of the state and covariance after every reset with the sample reset to',
            'binary': 'reset', 'runs': opt(1500, 20000),
            'rule': 'distinct (events, warnings, modes) of steps with a reset',
            'must_observe': ['flights', 'position reset to gps', 'position reset to vision', 'position reset to last known', 'velocity reset to gps', 'velocity reset to vision', 'velocity reset to zero', 'velocity reset to flow', 'height reset to baro', 'height reset to gps', 'height reset to vision', 'height reset to range', 'yaw reset to compass', 'yaw reset to gps course', 'yaw reset to vision', 'yaw reset to emergency estimate']},
}
