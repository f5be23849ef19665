"""Regenerates /verif/properties.jsonl from the table below (plain data; nothing is analysed here)."""
import json, os
S='src/pymgrid/'
M=S+'modules/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    over=sorted({'histories' if o=='states' else o for o in over})
    a={'files':files,'mechanism':[{'name':mech,'where':files[0]}]}
    if state: a['state']=[{'name':n,'meaning':'observable state variable'} for n in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Energy balance of every completed microgrid step',
 'Every microgrid step that returns normally has total energy provided by all modules equal, within the default closeness tolerance, to total energy absorbed by all modules; a step that cannot reach this raises RuntimeError instead of returning. With a balancing module present, whatever the other modules leave over is covered exactly: a shortage becomes that much loss load and an excess becomes that much overgeneration, never both.',
 ['inputs','configurations'],'for all module mixes, states, limits and control values',
 'Tests run a few microgrids for a few controls; the balance must hold for every control, every state and every saturation pattern of the modules.',
 [S+'microgrid/microgrid.py',S+'microgrid/utils/step.py',M+'unbalanced_energy_module.py'],
 'Microgrid.run dispatches fixed, then controllable, then flex modules and compares the provided and absorbed totals',
 observe=['Microgrid.run return value and exceptions'])
p('C02','Dispatch discipline of a microgrid step',
 'In one step every module acts exactly once, in the order fixed, controllable, flex. A controllable module receives exactly the control addressed to it by name and position; flex modules are asked in container order for the still-open surplus or deficit limited by their current capability, and a flex module of the wrong direction is asked for zero. A missing control, or one with fewer entries than there are modules of that name, raises ValueError before any flex module acts, and superfluous controls are ignored with a warning.',
 ['inputs','configurations'],'for all module mixes, controls and flex capabilities',
 'The routing and the running remainder depend on which flex modules saturate; tests sample one or two saturation patterns.',
 [S+'microgrid/microgrid.py',M+'module_container.py'],'loops of Microgrid.run over the fixed/controllable/flex containers',
 observe=['calls of module.step with their arguments'])
p('C03','Energy requests are honoured, clipped or refused',
 'A source asked for a non-negative amount delivers exactly that amount when it lies between its current minimum and maximum production, otherwise the violated limit; a sink asked to take an amount absorbs exactly that amount up to its current maximum consumption, otherwise that maximum. When the module was built to raise errors, an out-of-limits request raises ValueError and changes nothing; asking a module for a role it does not have is refused with an error. The sign of the action alone selects the role: positive provides, negative absorbs.',
 ['inputs','states'],'for all module kinds, states and requested amounts, in both error modes',
 'The clip has equality, strictness and mode cases at each limit; tests sample a few points away from them.',
 [M+'base/base_module.py',M+'battery_module.py',M+'genset_module.py',M+'grid_module.py',M+'renewable_module.py',M+'unbalanced_energy_module.py'],
 'step -> as_source/as_sink -> update of the module classes',observe=['info returned by module.step'])
p('C04','Battery charge law and capacity bounds',
 'After a battery step the stored charge is the previous charge minus delivered energy divided by the efficiency, or plus absorbed energy times the efficiency, and nothing else changes it. The charge never leaves the interval from minimum to maximum capacity, one step never discharges or charges the store by more than the discharge or charge limit, and state of charge always equals charge divided by maximum capacity. Maximum production and consumption are exactly the amounts those limits allow from the current charge. A transition model supplied by the user is given the energy exchanged and the parameters, limits and state of the battery, and what it returns is the change of the charge.',
 ['inputs','states'],'for all battery parameters, charges and actions',
 'Bounds and the efficiency split are inequalities over five real parameters and the charge history; tests use a handful of batteries.',
 [M+'battery_module.py',M+'base/base_module.py'],'BatteryModule.update/_update_state/max_production/max_consumption and the default transition model',
 state=['current_charge','soc'],observe=['state_dict, soc, current_charge, max_production, max_consumption'])
p('C05','Generator start-up and wind-down state machine',
 'A requested generator status takes effect only after the configured number of start-up or wind-down steps, immediately when that number is zero; a fractional request counts as on above one half and as off otherwise. While a change is in progress the remaining-steps counter of that direction drops by one per step and never becomes negative, reversing the request aborts the change and restores the counters, and status is always off or on. Production lies between the running minimum and maximum exactly when the generator is on and is zero when it is off.',
 ['histories','inputs'],'for all parameter values and all sequences of status requests',
 'The state machine has many (status, goal, counter) combinations reachable only through particular request histories.',
 [M+'genset_module.py'],'GensetModule.step/update_status/next_status and production limits',
 state=['current_status','goal_status','steps_until_up','steps_until_down'],observe=['state_dict, min_production, max_production, next_* predictions'])
p('C06','Grid exchange limits and outages',
 'Energy imported from the grid in a step never exceeds the import limit times the current grid status and energy exported never exceeds the export limit times the current grid status, so nothing flows in either direction during an outage. Status, prices and carbon intensity used in a step are those of that step in the time series; a three-column series means a grid that is always available, and negative limits, other column counts, non-binary status or negative entries are rejected.',
 ['inputs','states'],'for all limits, time series, steps and requests',
 'Which row and which column feed which quantity, and the outage rows, are sampled only sparsely by tests.',
 [M+'grid_module.py',M+'base/timeseries/base_timeseries_module.py'],'GridModule.max_production/max_consumption/current_status/_check_params',
 observe=['module.step info, max_production, max_consumption'])
p('C07','Renewable split and load service',
 'A renewable source never provides more than the amount available at the current step, and the provided energy plus the reported curtailment equals exactly that available amount. A load absorbs exactly the demand of the current step, whatever action it is given. Available amounts are non-negative whatever sign convention the supplied time series uses, and a series with mixed signs is rejected.',
 ['inputs','states'],'for all time series, steps and requests',
 'Depends on the sign convention and on the step at which the series is read.',
 [M+'renewable_module.py',M+'load_module.py',M+'base/timeseries/base_timeseries_module.py'],'RenewableModule.update, LoadModule.update, sign normalisation of time series',
 observe=['module.step info'])
p('C08','Module rewards and emissions follow the cost model',
 'The reward of each module step is minus its cost: cycle cost times the absolute internal energy change for batteries; fuel cost (linear or user function) plus carbon cost for generators; import price times imported energy plus carbon cost, or minus export price times exported energy, for grids; loss-load or overgeneration cost times the energy for balancing modules; zero for renewables and loads. Reported carbon production is intensity times energy provided and zero for exports, and the reported marginal costs are the cost of one unit under that model (for grids: the current import price for production and export price for absorption; for batteries: the cycle cost).',
 ['inputs','states'],'for all prices, intensities, states and energies',
 'The formulas must agree at every real-valued input and in each role; tests check isolated points.',
 [M+'battery_module.py',M+'genset_module.py',M+'grid_module.py',M+'unbalanced_energy_module.py',M+'renewable_module.py',M+'load_module.py'],
 'get_cost/get_co2/get_co2_cost/update and marginal-cost properties',observe=['reward and info of module.step'])
p('C09','Microgrid step result aggregates its modules faithfully',
 'The reward of a step is the sum of the rewards of all modules, or the result of the reward shaping function applied to the per-module infos and the cost information taken before the step; the step is done exactly when at least one module is done; observations and infos contain, for every module name, one entry per module in container order. The unshaped total is always what the balance log records as reward.',
 ['inputs','configurations'],'for all module mixes and all module results',
 'Aggregation errors show only for particular mixes (several modules per name, a single terminating module, shaping present).',
 [S+'microgrid/microgrid.py',S+'microgrid/utils/step.py'],'MicrogridStep.append/balance/output used by Microgrid.run',observe=['Microgrid.run return value'])
p('C10','Module logs record every step faithfully',
 'Each module step appends exactly one entry to that module\'s log: the state before the action, the reward, and the energies provided and absorbed under the module\'s own names with zero for the direction not used. All columns always have the same length as the number of steps since the last reset, a column appearing later is padded at the front, the last entry is the newest row, and a reset empties the log.',
 ['histories','inputs'],'for all module kinds and step sequences',
 'Alignment and pre/post-state mix-ups need particular alternations of source and sink steps.',
 [M+'base/base_module.py',S+'utils/logger.py'],'BaseMicrogridModule.step/_log and ModularLogger.log',state=['module log'],observe=['log_dict, logger_last, log'])
p('C11','Microgrid log is complete and aligned with time',
 'The microgrid log contains, for every module and every field of its log, the column of that module under its name and position, plus the balance columns: unshaped and shaped reward and the energies provided and absorbed overall, by fixed modules and by controllable modules. Row k carries the k-th step since the last reset and is labelled with the time step at which it was taken, also when a trajectory moved the start of the episode.',
 ['histories','configurations'],'for all module mixes, trajectories and step counts',
 'Index and prefix mistakes appear only for particular mixes and episode starts.',
 [S+'microgrid/microgrid.py',S+'utils/logger.py'],'Microgrid.get_log, _get_log_dict and the balance log',observe=['Microgrid.get_log'])
p('C12','Time advances in lockstep and episodes end on time',
 'Every microgrid step advances the current step of every module by exactly one, and a reset returns every module to its initial step and empties every log. A time-series module reports done exactly when the step just taken was the last one before its final step or a later one, so the microgrid as a whole is done at that step. A final step that is zero or negative means the end of the series, and one not after the initial step is rejected.',
 ['histories','configurations'],'for all module mixes, series lengths, initial and final steps',
 'Off-by-one errors at the episode end need exact combinations of length, initial and final step.',
 [M+'base/base_module.py',M+'base/timeseries/base_timeseries_module.py',S+'microgrid/microgrid.py'],'_update_step, _done, reset, initial_step/final_step',
 state=['current_step','initial_step','final_step'],observe=['current_step, done flags'])
p('C13','Trajectories stay inside the data and are validated',
 'Every stochastic trajectory shipped with the package returns, for every admissible pair of bounds and every random draw, a start not before the lower bound, an end not after the upper bound and a start strictly before the end; the fixed-length trajectory always has exactly the requested length and refuses bounds too narrow for it, and the deterministic one returns the pair it was built with. A microgrid accepts a trajectory function only if it satisfies this, and on every reset applies the returned start and end to all modules while its own bounds stay unchanged.',
 ['inputs','schedules'],'for all bounds, lengths and random draws',
 'Random draws at the edges of the admissible range are rarely hit by tests.',
 [S+'microgrid/trajectory/stochastic.py',S+'microgrid/trajectory/deterministic.py',S+'microgrid/microgrid.py'],'trajectory __call__, Microgrid._check_trajectory_func/_set_trajectory',observe=['trajectory return values, initial_step/final_step of modules'])
p('C14','Objects handed in by the caller are never altered',
 'Building a microgrid, environment or rule-based controller copies the modules or microgrid it is given, so that whatever is done with the copy afterwards never changes the caller\'s objects, including the list of modules, the time series arrays and a priority list. Running a step, also a refused one, never changes the control or action the caller passed, and results, states and log frames handed out are not altered by later steps. Instances of one module class never influence each other.',
 ['histories','configurations'],'for all sequences of operations on the copies',
 'Aliasing shows only when caller and copy are both used afterwards.',
 [S+'microgrid/microgrid.py',S+'envs/base/base.py',S+'algos/rbc/rbc.py'],'deepcopy at construction, copy of the control in run',observe=['caller-side objects after the call'])
p('C15','Reading a module or microgrid never changes it',
 'Reading state, limits, costs, spaces, logs or forecasts of modules and microgrids, normalising or denormalising values, sampling or building empty actions, serialising and printing never modify any attribute of any module or microgrid. Two consecutive reads with no step in between therefore give the same answer, random samples excepted.',
 ['histories','inputs'],'for all states and all orders of reads',
 'Tests read once or twice and seldom compare the complete object before and after.',
 [M+'base/base_module.py',M+'base/timeseries/base_timeseries_module.py',S+'microgrid/microgrid.py',M+'module_container.py',S+'utils/space.py'],
 'write-effect analysis of every public read accessor through the call graph',observe=['attributes of modules and microgrids'])
p('C16','Simulation is deterministic: randomness enters only where documented',
 'Building, stepping or resetting modules, microgrids and environments, reading state, perfect or user forecasts, rule-based control, logging, serialising and converting draw nothing from a random source; randomness enters only through sampling actions, stochastic trajectories, noisy forecasts, validation of user forecasters and the data generators. No library call seeds a global random generator with anything but a value handed in by the caller, and importing the package leaves the global generators alone. No result depends on the hash seed of the interpreter, which decides the iteration order of sets of strings.',
 ['inputs','histories'],'for all call sequences',
 'A hidden draw or reseed changes results only between runs or in unrelated later draws.',
 [S+'modules',S+'microgrid',S+'forecast/forecaster.py',S+'convert/to_nonmodular_ops.py'],'who-may-call analysis of random sources over the resolved call graph')
p('C17','Normalisation is an exact affine inverse pair',
 'For every module and both actions and observations, normalising maps the lower bound to zero and the upper bound to one by the affine map, a degenerate range maps by a spread of one, and denormalising a normalised value gives back the original value component by component; microgrid-level normalisation applies each module\'s own map to each module\'s own value. Values out of range are still mapped by the same affine map, with a warning.',
 ['inputs','configurations'],'for all bounds including degenerate ones and all values',
 'Degenerate and negative ranges and component order are not covered by samples.',
 [S+'utils/space.py',M+'base/base_module.py',S+'microgrid/microgrid.py'],'ModuleSpace/MicrogridSpace normalize and denormalize',observe=['to_normalized/from_normalized'])
p('C18','Observations, state and spaces describe the same vector',
 'For every module the state vector is the sequence of values of its state dictionary, the observation returned by a step or reset is its normalisation after the step, and the observation space has one component per state entry in the same order, with bounds that contain the state component. The microgrid state dictionary and series list exactly the states of all modules under name and position.',
 ['inputs','configurations'],'for all module kinds, horizons and states',
 'Component order and horizon-dependent length must agree across four places for every horizon.',
 [M+'base/base_module.py',M+'base/timeseries/base_timeseries_module.py',M+'battery_module.py',M+'genset_module.py',M+'grid_module.py',S+'microgrid/microgrid.py'],'state_dict/state/min_obs/max_obs/observation_space',observe=['state, state_dict, observation_space'])
p('C19','Forecasts show the promised future values',
 'A perfect forecast at step t lists the series values at t+1 to t+h in order, component by component, and entries beyond the end of the series are replaced by the midpoint of the observation bounds; a user or noisy forecast is clipped into the observation bounds. A forecast always has exactly h rows whatever remains of the series, no forecaster means a zero horizon, and changing the forecaster, the horizon or the current step takes effect in the very next state read. The forecast horizon of a microgrid is the common one of its modules, and differing ones are refused.',
 ['inputs','states'],'for all series, steps, horizons and forecasters',
 'Window arithmetic near the end of the series and after reconfiguration is rarely sampled.',
 [S+'forecast/forecaster.py',M+'base/timeseries/base_timeseries_module.py',S+'microgrid/microgrid.py'],'forecast(), Forecaster.__call__/_pad/_clip/full_pad, set_forecaster',observe=['forecast(), state_dict'])
p('C20','Saving and loading a module preserves it',
 'Loading a saved module yields a module of the same kind with every constructor parameter, its name, its current step, its dynamic state and its log equal to those at saving, so that both continue identically, including forecasts and logging. Every constructor parameter is both written and read back, missing parameters fall back to the default with a warning or are refused when there is no default.',
 ['inputs','states'],'for all module kinds, parameters, states and logs',
 'Round trips are tested for fresh default objects; dropped or swapped fields matter only for other states.',
 [M+'base/base_module.py',M+'base/timeseries/base_timeseries_module.py',M+'genset_module.py',S+'utils/serialize.py',S+'utils/logger.py'],
 'serialize/deserialize_instance/deserialize writer-reader agreement',observe=['all public attributes after reload'])
p('C21','Saving and loading a microgrid preserves it',
 'Loading a saved microgrid yields the same modules, in the same states and with the same logs, under the same names and in the same order, the same balance log, shipped trajectory and reward shaping functions, initial and final step, adds no second balancing module, and continues exactly like the saved one. Array data written to side files goes to a separate file per array of the document, so that every module, also one of several of the same class, gets its own series and log back. A saved environment loads as an environment of its class with the same modules, states, logs and episode bounds. Saving changes nothing.',
 ['configurations','states'],'for all module mixes, logs and trajectories',
 'Name collisions of side files and non-default fields need particular mixes.',
 [S+'microgrid/microgrid.py',S+'utils/serialize.py',S+'utils/logger.py',M+'module_container.py'],'_serialization_data/from_yaml and dump_data path assignment',observe=['reloaded microgrid'])
p('C22','Modules are partitioned and named consistently',
 'Every module given to a microgrid appears exactly once in every full listing, in exactly one of fixed, flex or controllable according to its type and in exactly one of source, sink or both according to its roles, and is reachable by name and position, which its own name records. Unnamed modules are grouped under their type name, given names win, modules sharing a name keep their input order, and reusing one name for modules of different kinds is refused.',
 ['configurations'],'for all lists of modules and names',
 'Silent loss of a module happens only for particular name and type combinations.',
 [M+'module_container.py',S+'microgrid/microgrid.py'],'get_subcontainers and Container views',observe=['modules, fixed, flex, controllable, iterlist, iterdict, to_tuples'])
p('C23','Priority-list dispatch serves the net load in order',
 'A priority list is turned into an action by serving the load minus available renewables: modules are used in list order, each takes as much of the open remainder as its current or predicted limits allow (at least its minimum production when it runs), surplus is only given to sinks up to their capability, and the remainder is updated by exactly what was assigned. Rule-based control without an explicit list orders modules by increasing marginal cost with a running generator before an idle one at equal cost, and runs until done or the step limit.',
 ['inputs','configurations'],'for all loads, renewables, limits and list orders',
 'Depends on the saturation pattern and generator status predictions along the list.',
 [S+'algos/priority_list/priority_list.py',S+'algos/priority_list/priority_list_element.py',S+'algos/rbc/rbc.py'],'_populate_action/_produce_from_module/_consume_in_module, element ordering',observe=['action passed to Microgrid.run'])
p('C24','Discrete environment actions map to priority lists',
 'Every action number of a discrete environment denotes one admissible priority list, each containing every controllable source exactly once and each generator with exactly one status; number k is executed as list k against the current net load, unnormalised, and recorded in the log. A number outside the space is refused before anything happens, and removing an action removes exactly that list and shrinks the space by one.',
 ['inputs','configurations'],'for all module mixes and action numbers',
 'Indexing and redundancy removal interact with the module mix.',
 [S+'envs/discrete/discrete.py',S+'algos/priority_list/priority_list.py'],'get_priority_lists/_get_action/remove_action/step',observe=['actions_list, action_space, run call'])
p('C25','Environment observations match the declared space',
 'What an environment returns from reset and step is the normalised observation restricted to the configured keys, in the order and with the components of the declared observation space (modules by name and position, keys in the configured order within each module), flattened exactly when flat spaces are requested; reward, termination flag and info are passed through unchanged. A new forecaster changes observations and the declared space alike. The continuous environment hands every controllable module its own normalised component of the action. Environments built from a microgrid keep its modules, reward shaping, trajectory and episode bounds unless overridden, start with empty logs and add no second balancing module.',
 ['configurations','inputs'],'for all module mixes, key selections and space layouts',
 'Key selection and flattening interact with module mix and order.',
 [S+'envs/base/base.py',S+'envs/continuous/continuous.py'],'_get_observation_space/_get_obs/from_microgrid',observe=['reset and step results, observation_space'])
p('C26','Predictive control optimises the model of the microgrid it controls',
 'At every step the optimisation problem of the predictive controller is the one of the microgrid as it stands: over the current step and the forecast horizon it minimises fuel, import, battery cycle and loss-load costs plus carbon costs of generator and imports, minus export income, each at the price of its step; subject to the energy balance, the law of the state of charge starting from the current one, the state-of-charge bounds, the configured charge and discharge limits, import and export limits that are zero during outages, curtailment of at most the generation, loss load of at most the load and generator limits that apply exactly when it runs, and to no other restriction. The control that is executed is that of the first step of the solution, in unnormalised units with production positive, addressed to the modules by their own names; for non-modular microgrids it is the recorded action. This holds with and without grid or generator, for every horizon, for second runs, and when the preferred solver has no license.',
 ['configurations','inputs'],'for all horizons, architectures, parameters and solutions a solver may return',
 'A shifted column or stale right-hand side gives feasible but wrong dispatch, visible only for particular mixes and steps.',
 [S+'algos/mpc/mpc.py'],'_create_problem/_set_parameters/_run_mpc_on_*/mpc_single_step',observe=['problem handed to the solver, control handed to the microgrid'])
p('C27','Conversion between modular and non-modular microgrids keeps parameters',
 'Converting in either direction carries each physical parameter to the corresponding one on the other side: capacities, power limits, efficiency, state of charge and its lower bound, remaining room to charge and discharge, prices, status and carbon columns, generator limits and costs, unmet-demand, overgeneration and (common) carbon costs, load and generation series with the sign convention of the target. A component exists on one side exactly when it exists on the other, mixes that cannot be represented are refused, and converting changes nothing on the original.',
 ['inputs','configurations'],'for all parameter values and component mixes',
 'A swapped or dropped field is invisible unless the two values differ in the sampled microgrid.',
 [S+'convert/get_module.py',S+'convert/to_nonmodular_ops.py',S+'convert/convert.py'],'writer and reader tables of the converters',observe=['parameters of the converted microgrid'])
p('C28','Non-modular microgrid accounts for what it actually produced',
 'A step of the non-modular microgrid clips each commanded quantity to the power limits and the remaining battery capacity (a generator asked for more than one unit runs between its minimum and maximum), completes the balance within 0.001 by using or curtailing the available pv, by loss load or by overgeneration, and derives state of charge, emissions and every cost entry from these actual quantities. Costs use the prices of the step being run, the state of charge moves by charge times efficiency minus discharge divided by efficiency over capacity, the returned state shows the data of the next step, and time moves one step ahead unless the data end. Forecasts list the next values in order, only the selected part of a train/test split is used, and all of it, cancelling the split brings all data back, a reset starts over, and the caller\'s control is left alone.',
 ['inputs','states','configurations'],'for all controls, states and architectures',
 'Architecture-specific branches repeat the same accounting; tests exercise a few.',
 [S+'_deprecated/non_modular_microgrid.py'],'run/_record_production/_update_status/_record_cost/_record_co2',observe=['records after run'])
p('C29','Current reward shapers compute what they document',
 'The curtailment shaper returns minus the total curtailment of the modules named pv; the battery discharge shaper returns battery discharge minus loss load divided by load, limited to the range from minus one to one, and zero when there is no load; loss load is the energy provided by the modules named balancing or unbalanced_energy. A module name missing from the step information, or an entry missing from one module, counts as zero for that module only, and shapers never alter the step information.',
 ['inputs','configurations'],'for all step informations',
 'Only specific module names and mixes reveal a lookup that never matches.',
 [S+'microgrid/reward_shaping/pv_curtailment_shaper.py',S+'microgrid/reward_shaping/battery_discharge_shaper.py',S+'microgrid/reward_shaping/base.py'],'shaper __call__',observe=['shaped reward'])
p('C30','Sampled and empty actions fit the microgrid',
 'Sampled actions are normalised values in the unit interval for every draw; with strict bounds the denormalised action of a controllable or renewable module stays within the production and consumption limits in force when it is executed. The ends of the normalised action range of batteries and grids mean full charging or export and full discharging or import. The sampled and the empty action of a microgrid have one entry per module under exactly the names of the controllable modules (or all actionable modules on request), so either can be passed to a step once filled.',
 ['inputs','schedules'],'for all states and random draws',
 'Bounds must hold for every draw, not the few sampled.',
 [M+'base/base_module.py',M+'genset_module.py',S+'microgrid/microgrid.py'],'sample_action/get_empty_action',observe=['returned actions'])
p('C31','Predictive and sampled-average control quality',
 'Controls returned by the predictive controllers are optimal for the stated horizon problem and their cost does not exceed that of the rule-based controller with perfect forecasts.',
 ['inputs'],'for all microgrids','Optimality is a numerical claim about an external solver.',
 [S+'algos/mpc/mpc.py',S+'algos/saa/saa.py'],'cvxpy problem solution')
p('C32','Noisy forecasts add Gaussian noise of the requested size',
 'A number given as forecaster is the standard deviation of the noise of the forecast: every future value shown is the true one plus an own, independent zero-mean Gaussian draw of that deviation, limited to the bounds of the observations. With relative noise the number is multiplied by the absolute mean of the data of the episode, and with increasing uncertainty the deviation of the k-th step ahead (counted from zero) is multiplied by 1 + log(1 + k); the deviation the forecaster reports is the one used. Entries beyond the end of the data carry no noise, and every step, reset and change of the horizon draws anew.',
 ['inputs','schedules'],'for all series, deviations, horizons and draws',
 'A wrong scale or a shared draw is within the scatter a test of a few random forecasts tolerates.',
 [S+'forecast/forecaster.py',M+'base/timeseries/base_timeseries_module.py'],'GaussianNoiseForecaster scale and draw, get_forecaster options',observe=['forecast part of the state as a function of the recorded draws'])
p('C33','Benchmark scenarios contain the published data',
 'Each of the 25 benchmark microgrids loads with the published module parameters and one year of data.',
 ['configurations'],'for all 25 scenarios','Content of shipped data files.',
 [S+'data/scenario',S+'microgrid/microgrid.py'],'from_scenario')
p('C34','Generated sample data follow the stated statistics',
 'Data sampled by the data generator follow the distribution of the data they are generated from.',
 ['schedules'],'for all seeds','Distributional claim about random draws.',
 [S+'utils/DataGenerator.py'],'random sampling')
p('C35','Rule-based control of non-modular microgrids serves the net load',
 'For a non-modular microgrid with a battery the rule-based controller uses pv first. Remaining demand is taken from the battery, up to its power limit and the stored energy above the lowest state of charge times the efficiency, then from the grid if it is available, then from the generator; surplus pv charges the battery up to its power limit and the room left, and the rest is exported if the grid is available. An available grid comes before the battery when the export price divided by the squared efficiency is not below the import price. The generator runs, at no less than its minimum output, exactly when no grid is available and pv plus battery cannot cover the demand; when its minimum exceeds the load it runs at that minimum and the battery rests. Production, cost, emission and state records are those of running these commands, one row per step that has the data of its horizon, and the microgrid itself is left alone. The rule-based benchmark of a microgrid is this result; control outputs compare by their total cost, and showing one as a frame leaves it unchanged.',
 ['inputs','configurations'],'for all data, prices and architectures with a battery',
 'The merit order has branches per architecture, outage, price relation and saturation of the battery; tests run one or two sample microgrids.',
 [S+'algos/rbc/_nonmodular_rbc.py',S+'algos/Control.py',S+'_deprecated/non_modular_microgrid.py'],'_generate_priority_list/_run_priority_based/run_rule_based, Benchmarks, ControlOutput',observe=['frames of the control output'])
p('C36','Generated microgrids are coherent for every draw',
 'Whatever is drawn, the generator appends the requested number of microgrids, each with pv and battery and with a grid, a generator or both; a weak grid always comes with a generator. Load and pv keep the shape of the data of the folder: the peak load lies between 100 and 100000, the pv peak between 0.3 and 1.5 times the peak load. The battery holds three to five hours of the mean load (rounded up) with a quarter of that as power in both directions (rounded up) and starts between state of charge 0.2 and 1; the generator covers the peak load at 90 percent of its rated power, and the grid exchanges up to twice the peak load in both directions. Import prices follow one of the two documented time-of-use tariffs every day, exports earn nothing, the grid status is 0 or 1 and always 1 unless the grid is weak, and an outage that begins after the first step lasts at least the duration asked for. Without data files generation is refused.',
 ['schedules','inputs'],'for all random draws',
 'Tests generate a few microgrids from fixed seeds; coherence must hold for every draw of architecture, sizes, tariff and outages.',
 [S+'MicrogridGenerator.py',S+'_deprecated/non_modular_microgrid.py'],'_create_microgrid/_size_mg/_get_grid/_generate_weak_grid_profile',observe=['parameters, components and time series of the generated microgrids'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
