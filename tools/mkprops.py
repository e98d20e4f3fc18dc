import json
S='pipedream_solver/simulation.py'; N='pipedream_solver/nsuperlink.py'; B='pipedream_solver/superlink.py'
G='pipedream_solver/ngeometry.py'; I='pipedream_solver/ninfiltration.py'; I0='pipedream_solver/infiltration.py'; Q='pipedream_solver/nquality.py'; U='pipedream_solver/nutils.py'; ST='pipedream_solver/storage.py'
def P(id,title,st,over,text,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None))
COMMON='The existing stable tests are four scripts that only have to run to completion on three fixed networks; none asserts '
ps=[
P('C01','Water is conserved at every internal junction of a superlink',
 'In every time step, the water gained by each internal junction of a superlink (its free-surface area, taken from the widths and lengths of the adjacent half-links plus its own surface area, times the change in its depth) equals flow in minus flow out plus lateral inflow, times the time step. The same balance ties the reported flows at the two ends of a superlink to the flows of its first and last link (with end_method \'o\' they equal those flows). The balance may differ only in a superlink in which some depth is held at the minimum or the maximum depth in that step, or in a run that has become unstable (heads, depths or flows beyond 1000 m or m^3/s, water faster than 1 km/s).',
 ['inputs','configurations','histories'],'Every network (any cross sections, slopes, spacing, number of links, friction method), every initial state, every sequence of inflows, lateral flows, boundary heads and time steps.',
 COMMON+'a balance; a handful of fixed runs cannot establish it for every geometry and history.',
 [N,B],[('continuity coefficients E, D','nsuperlink.py node_coeffs/E_Ik/D_Ik/numba_node_coeffs'),('recurrences','nsuperlink.py numba_forward_recurrence/numba_backward_recurrence'),('back substitution','nsuperlink.py numba_solve_internals, solve_internals_*'),('end flows','superlink.py solve_superlink_flows')],
 [('h_Ik','depth at internal junctions','superlink.py'),('Q_ik','flow in links','superlink.py'),('Q_uk/Q_dk','flow at superlink ends','superlink.py')],['SuperLink.step','h_Ik','Q_ik','Q_uk','Q_dk']),
P('C02','Water is conserved at every superjunction and in the network as a whole',
 'In every time step, a superjunction without a prescribed head changes its stored water (surface area of its storage and of the connected link ends, times the change in head) by exactly the external inflow plus the flow received from superlinks, orifices, weirs and pumps minus the flow given to them. The exchange through an orifice, weir or pump in this balance is its flow law linearised about its previous flow; the same amount leaves one end and enters the other, so no superlink or control structure creates or destroys water. The balance may differ only at a superjunction held at its bottom or its maximum depth in that step, or directly connected to one that is.',
 ['inputs','configurations','histories'],'Every topology, mixture of storages and control structures, control signals, inflows, fixed-head superjunctions, time steps, and iteration counts.',
 COMMON+'a balance; no stable test has an orifice, weir, pump or inflow to several superjunctions.',
 [N,B],[('superjunction matrix','nsuperlink.py sparse_matrix_equations, numba_create_A_matrix, numba_create_OWP_matrix'),('linearised structure flows','nsuperlink.py *_flow_coefficients'),('superlink flow coefficients','nsuperlink.py superlink_flow_coefficients'),('solution','nsuperlink.py solve_sparse_matrix/solve_banded_matrix')],
 [('H_j','superjunction heads','superlink.py'),('A_sj','storage surface area','nsuperlink.py compute_storage_areas')],['SuperLink.step','H_j','Q_uk','Q_dk','Q_o','Q_w','Q_p','A_sj']),
P('C03','Every link satisfies the discretised momentum balance',
 'In every time step, the flow in each link satisfies the implicit one-dimensional momentum balance: inertia, convective acceleration upwinded by flow direction, friction by the link\'s selected law (Chezy-Manning, Hazen-Williams or Darcy-Weisbach) and its own roughness, the control loss where the link has one, gravity along its bed slope, and the pressure difference between its two end depths (except in a superlink in which some depth is held at the minimum or the maximum depth in that step). The balance uses the link\'s own length, area and hydraulic radius, independently for each link of each superlink.',
 ['inputs','configurations','histories'],'Every cross section, friction law, roughness, slope (including adverse and zero), flow direction, depth regime, time step, and inertial damping setting.',
 COMMON+'the flow law; friction methods other than Manning, adverse flow and most cross sections are never run.',
 [N],[('link coefficients','nsuperlink.py link_coeffs, numba_a_ik/b_ik/c_ik/P_ik'),('friction laws','nsuperlink.py friction_slope'),('link velocities','nsuperlink.py node_velocities, numba_u_ik/u_Ik/u_Ip1k'),('recurrences','nsuperlink.py numba_forward_recurrence/numba_backward_recurrence')],
 [('Q_ik','link flow','superlink.py'),('A_ik, R_ik','link geometry','nsuperlink.py')],['SuperLink.step','Q_ik','h_Ik']),
P('C04','Superlink ends follow the head of the superjunction they connect to',
 'In every time step, the depth at each end of a superlink equals the depth implied by the head of the connected superjunction (zero if the head is below the pipe end) minus or plus the end loss set by the loss coefficient of that end and the end flow. A still water body with level surface, no inflow, and structures closed or at equal heads stays still (with bc_method \'z\' only where the superlinks have no end lengths): no flow appears and no depth or head changes.',
 ['inputs','configurations','histories'],'Every network, offsets, loss coefficients, orientation of superlinks, submerged or free pipe ends, initial levels, time steps and number of steps.',
 COMMON+'the boundary depths or the rest state.',
 [N,B],[('end depth coefficients','nsuperlink.py superlink_upstream_head_coefficients/superlink_downstream_head_coefficients'),('end depth solution','superlink.py solve_superlink_depths'),('boundary geometry','nsuperlink.py upstream_hydraulic_geometry/downstream_hydraulic_geometry')],
 [('h_uk/h_dk','end depths','superlink.py')],['SuperLink.step','h_Ik at the first and last internal junction','H_j','Q_uk','Q_dk']),
P('C05','Prescribed heads are honoured and heads and depths stay within bounds',
 'After every step all reported heads, depths and flows are finite; each superjunction marked as fixed-head has the head prescribed for that step (or keeps its head when none is prescribed), as far as that lies within its bounds; every head lies between the superjunction\'s bottom and its bottom plus maximum depth. No internal depth is below the minimum depth, and interior depths of a superlink do not exceed its maximum depth where one is given.',
 ['inputs','configurations','histories'],'Every network, storm, drawdown and boundary series, drying and surcharging, with every solver option.',
 COMMON+'bounds; drying, flooding to the maximum depth and moving boundary heads are not run.',
 [N,B],[('fixed-head rows','nsuperlink.py sparse_matrix_equations, numba_create_A_matrix'),('clipping','nsuperlink.py solve_sparse_matrix/solve_banded_matrix'),('depth clamps','nsuperlink.py solve_internals_*')],
 [('H_j','heads','superlink.py'),('h_Ik','depths','superlink.py')],['SuperLink.step']),
P('C06','Orifices, weirs and pumps obey their flow laws',
 'After every step the flow reported for an orifice, weir or pump is the one its flow law gives for the heads at its two ends, its geometry and its control setting: submerged, partly submerged and free regimes, side and bottom orifices, one-way orifices, weir and end-contraction coefficients, pump curve with head limits. Flow goes from the higher to the lower head, is zero when the structure is closed, dry, switched off or reversed in a one-way structure, and an orifice never takes more water than its source holds.',
 ['inputs','configurations','histories'],'All head pairs, elevations, openings, orientations, coefficients and control histories.',
 'No stable test contains a control structure.',
 [N,B],[('orifice law','nsuperlink.py numba_solve_orifice_flows'),('weir law','nsuperlink.py numba_solve_weir_flows'),('pump law','nsuperlink.py numba_solve_pump_flows'),('opening','nsuperlink.py orifice_hydraulic_geometry/numba_orifice_geometry')],
 [('Q_o','orifice flows','superlink.py'),('Q_w','weir flows','superlink.py'),('Q_p','pump flows','superlink.py')],['SuperLink.step(u_o,u_w,u_p)','Q_o','Q_w','Q_p']),
P('C07','Reported cross sections agree with the shape of each link',
 'For every supported shape and every depth, the area, wetted perimeter, hydraulic radius and top width the model reports for a link (and for the two ends of a superlink) are those of the described cross section at the mean depth of its two ends, including the narrow slot above the crown of a closed circular, rectangular or force-main section. For surveyed transects area, perimeter, radius and width are interpolated from a table of them sampled at the requested number of depths. Area never decreases with depth, hydraulic radius is area over perimeter, and links of different shapes in one model do not affect one another.',
 ['inputs','configurations'],'Every shape and dimension, all depths from dry to surcharged, any mixture of shapes and transects in one network.',
 COMMON+'geometry; most shapes never appear in a stable test.',
 [G,N],[('shape formulas','ngeometry.py'),('dispatch','nsuperlink.py numba_hydraulic_geometry/numba_boundary_geometry/numba_transect_geometry/numba_boundary_transect'),('transect tables','superlink.py configure_hydraulic_geometry / nsuperlink.py')],
 [('A_ik, Pe_ik, R_ik, B_ik','link geometry','nsuperlink.py')],['A_ik','Pe_ik','R_ik','B_ik','A_uk','A_dk']),
P('C08','Storage area and volume follow the storage curve of each superjunction',
 'The surface area and volume reported for a superjunction are those of its own storage curve (power-law or table) at its current depth; volume is the integral of area over depth, so it is zero at the bottom, continuous and never decreasing. The volume of a tabular storage is exact at the depths listed and linear between them; beyond the table the area stays that at its end. The depth of storage is never taken below the minimum depth.',
 ['inputs','configurations','histories'],'Every mixture of functional and tabular storages, parameters and tables, shared tables, all depths within and beyond the table.',
 COMMON+'storage; only one stable script uses storage at all and only reads heads.',
 [N,ST],[('areas','nsuperlink.py compute_storage_areas, numba_compute_functional_storage_areas, numba_compute_tabular_storage_areas'),('volumes','nsuperlink.py compute_storage_volumes, numba_compute_functional_storage_volumes, numba_compute_tabular_storage_volumes'),('tables','nsuperlink.py configure_storages; storage.py')],
 [('A_sj','area','superlink.py'),('V_j','volume','superlink.py')],['A_sj','V_j']),
P('C09','Results do not depend on how the same network is represented or solved',
 'The banded, dense and permuted solution paths give the same heads and flows to rounding. Renumbering superjunctions, superlinks or structures consistently in all tables, adding an unconnected network, or listing a superlink with generated internals from its lower to its higher end changes nothing except labels and order. Listing the internals of a uniform superlink explicitly is the same as having them generated. Building and running a model does not modify the caller\'s tables or input arrays.',
 ['configurations','inputs'],'Every network, permutation, direction of listing and solver option, over whole histories.',
 COMMON+'equivalence of two representations.',
 [N,B],[('permutation','superlink.py auto_permute, _compute_bandwidth'),('banded solve','nsuperlink.py solve_banded_matrix, numba_create_banded'),('orientation','superlink.py __init__ (up/down ordering)')],
 [('permutations','order used internally','superlink.py')],['SuperLink(...)','step','H_j','Q_ik']),
P('C10','A model starts as its input tables describe',
 'A newly built model has the geometry and state the tables describe: the links of a superlink have positive lengths that add up to its length, the bed runs straight between its two ends (superjunction bottom plus offset), the requested number of links is present, and initial depths, heads and flows are those given (never below the bed or the minimum depth; the constructor then takes one step of a microsecond without input, after which end depths follow the heads, and sets time and count to zero). Every per-link, per-junction and per-structure attribute is that of the named element.',
 ['inputs','configurations'],'Every table: any number of superlinks, explicitly listed or generated internal links and junctions, either direction of listing, with and without each optional column. Identifiers are positions in their table, and internals are listed in the order of their superlinks.',
 COMMON+'the discretisation built from the tables.',
 [B,N],[('generation of internals','superlink.py configure_internals_variable'),('constructor','superlink.py __init__'),('spin-up','superlink.py spinup')],
 [('x_Ik, z_inv_Ik','position and bed','superlink.py')],['SuperLink(...)']),
P('C11','Saving and restoring a state replays the same future exactly',
 'Restoring a saved state and applying the same inputs reproduces the same heads, depths and flows as the first time, however many steps, retries or restores lie between. A step depends only on the restored state and the inputs of that step, two models never influence each other, and the arrays of a saved state are not altered by later steps (the model\'s own `states` dictionary itself is refilled by the next step).',
 ['histories','schedules'],'All interleavings of step, save and load on one or several models, at any points.',
 COMMON+'determinism or restore; no stable test restores a state and compares.',
 [B,N,S],[('snapshot','superlink.py save_state'),('restore','superlink.py load_state'),('snapshot before a step','superlink.py _setup_step')],
 [('states','saved state','superlink.py')],['save_state','load_state','states','step']),
P('C12','Model time, iteration count and saved previous state are accounted exactly',
 'Each accepted step advances model time by exactly the step size used, once, whatever the number of fixed-point iterations, and the saved previous state is the state before that step. Repeated iterations solve the same step from the same previous state; spin-up is a number of ordinary steps, after which time and count are zero if reset is asked for and otherwise go on. The count is the number of steps taken; loading a state restores the time but not the count.',
 ['histories','configurations'],'All sequences of steps with varying step sizes, iteration counts, spin-ups, and restores.',
 COMMON+'time or iteration accounting.',
 [B],[('step','superlink.py step/_setup_step/_solve_step'),('spin-up','superlink.py spinup'),('time restore','superlink.py load_state')],
 [('t','model time','superlink.py'),('iter_count','count','superlink.py')],['t','iter_count','states']),
P('C13','Adaptive stepping honours its limits, tolerance and retry rules',
 'One call of the simulation manager\'s step advances time by exactly the step it reports, which is the requested step or, on rejected attempts, that step halved, never below the minimum step and at most the allowed number of times; an attempt is accepted only if its error is within the caller\'s tolerance or no retry is left, always judged by the caller\'s settings. A rejected attempt leaves no trace in the accepted state. A proposed step size follows the digital filter of its coefficients, limited to the allowed relative change times the safety factor and then to the minimum and maximum step (which take precedence); with fewer than three recorded steps, or a recent step without an error estimate, it is the last step.',
 ['histories','configurations','fault_sequences'],'All sequences of error outcomes, tolerances, norms, retry counts, subdivisions and step limits.',
 'No stable test retries a step; step rejection needs particular error sequences.',
 [S],[('step with subdivisions and retries','simulation.py step'),('error norms','simulation.py _scaled_error/_normed_error'),('step-size control','simulation.py compute_step_size/filter_step_size')],
 [('dts, errs','recent steps and errors','simulation.py')],['Simulation.step','Simulation.dts','Simulation.errs','filter_step_size','compute_step_size']),
P('C14','Forcing applied to a step is the input series at the end of that step',
 'In every step, the inflow, lateral inflow and boundary head given to each element is that element\'s own input series evaluated at the end time of the step: linear or nearest interpolation between samples and the first or last sample outside the range. This holds for every sub-step and retry as well and for any internal permutation; columns belong to superjunctions (or internal junctions) by position in the table, and the simulation starts at the given start time. Exactly between two samples, `nearest` may take either.',
 ['inputs','histories','configurations'],'All irregular sample times, permutations, missing inputs, step sizes, subdivisions and interpolation settings.',
 COMMON+'which forcing a step receives.',
 [S,U],[('sampling','simulation.py _step; nutils.py interpolate_sample'),('column mapping','simulation.py __init__')],
 [('Q_in, H_bc, Q_Ik','input series','simulation.py')],['Simulation.step','Simulation._step']),
P('C15','Recorded history is the model state at the recorded times',
 'Each recorded sample holds the values the model had at its time stamp, is unaffected by later steps, and there is exactly one row per recorded time, in the order in which the times were first recorded (time order, unless the model was taken back). On leaving the simulation, the tables are labelled with the names of the superjunctions and superlinks (other elements by position) and each column holds that element\'s own values.',
 ['histories','configurations'],'All sequences of step, record, load and checkpoint, all selections of state variables, permuted or unpermuted models.',
 COMMON+'recorded values; the scripts only plot them.',
 [S],[('record','simulation.py record_state'),('tables','simulation.py __exit__'),('load','simulation.py load_state')],
 [('states','recorded history','simulation.py')],['Simulation.record_state','Simulation.states']),
P('C16','Infiltration conserves rainfall and follows Green-Ampt',
 'In every infiltration step each soil element splits rain and ponded water exactly into infiltration and remaining ponded water, reports as runoff the rain in excess of infiltration over its area, infiltrates never more than is available nor a negative amount, and accumulates exactly the infiltrated depth. Infiltration under ponding satisfies the Green-Ampt relation, the soil moisture deficit stays within its range and recovers only during dry periods, and elements do not influence one another. Used together with the hydraulic model, exactly the runoff computed is what enters the network.',
 ['inputs','histories','configurations'],'All rainfall sequences, step sizes, soil parameters, initial states, and numbers of elements.',
 'No stable test exercises infiltration.',
 [I,I0],[('step','ninfiltration.py step'),('saturated and unsaturated cases','ninfiltration.py saturated_case/unsaturated_case_3; infiltration.py unsaturated_case_1/2'),('implicit equation','ninfiltration.py run_green_ampt_newton')],
 [('F','cumulative infiltration','infiltration.py'),('f','infiltration rate','infiltration.py'),('theta_du','moisture deficit','infiltration.py')],['GreenAmpt.step','F','f','Q','theta_du']),
P('C17','Constituents are conserved, bounded and transported with the water',
 'In every water-quality step, constituent mass at each internal junction, link and superjunction balances storage change, advection by the hydraulic flows, dispersion, first-order reaction and external load. A uniform concentration stays uniform under any hydraulics when inflow carries the same concentration and nothing reacts; concentrations stay between the smallest and largest of initial, boundary and inflow values; prescribed concentrations are honoured.',
 ['inputs','histories','configurations'],'All networks, flow reversals, storage changes, dispersion and reaction coefficients, loads and step sizes.',
 'The stable scripts run the solver and plot it; none asserts mass, bounds or uniformity.',
 [Q],[('link and node coefficients','nquality.py link_coeffs/node_coeffs'),('recurrences','nquality.py forward_recurrence/backward_recurrence'),('superjunction matrix','nquality.py sparse_matrix_equations'),('internal solution','nquality.py solve_internals_*')],
 [('c_j','superjunction concentration','nquality.py'),('c_ik, c_Ik','link and junction concentration','nquality.py')],['QualityBuilder.step','c_j','c_Ik','c_ik']),
P('C18','The Kalman update is the optimal blend of prediction and measurement',
 'A filter update with given measurements and covariances moves the model heads to the Kalman estimate for the step\'s own linear system: unmeasured information is unchanged when measurement noise is unbounded, measured heads match exact measurements, and updates with zero innovation change nothing. The returned error covariance stays symmetric and non-negative and is not increased by a measurement.',
 ['inputs','histories','configurations'],'All networks, measurement selections, covariances and sequences of updates.',
 'No stable test uses data assimilation through the simulation manager.',
 [S,U],[('update','simulation.py kalman_filter'),('semi-implicit filter','nutils.py _kalman_semi_implicit')],
 [('P_x_k_k','error covariance','simulation.py')],['Simulation.kalman_filter','H_j']),
P('C19','Moving internal junctions preserves the channel',
 'Moving internal junctions of a superlink leaves its ends, total length, number of links and bed line unchanged: positions stay in increasing order with positive link lengths, the moved junction lies on the straight bed of the superlink, and depth, water surface and flow are interpolated from the state before the move without touching other superlinks.',
 ['inputs','histories','configurations'],'Every downstream head, position, superlink, and history of moves between steps.',
 'No stable test moves junctions.',
 [N],[('repositioning','nsuperlink.py reposition_junctions, numba_reposition_junctions')],
 [('x_Ik','junction positions','superlink.py')],['SuperLink.reposition_junctions','SuperLink(mobile_elements=True)','x_Ik']),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p)+'\n')
    assert all(len(p['title'])<=80 for p in ps)
