"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))

S = 'src/pymgrid/'
MG = S + 'microgrid/microgrid.py'
BM = S + 'modules/base/base_module.py'
TS = S + 'modules/base/timeseries/base_timeseries_module.py'
BA = S + 'modules/battery_module.py'
GE = S + 'modules/genset_module.py'
GR = S + 'modules/grid_module.py'
LO = S + 'modules/load_module.py'
RE = S + 'modules/renewable_module.py'
UN = S + 'modules/unbalanced_energy_module.py'
CO = S + 'modules/module_container.py'
SE = S + 'utils/serialize.py'
LG = S + 'utils/logger.py'
SP = S + 'utils/space.py'
FC = S + 'forecast/forecaster.py'
ST = S + 'microgrid/utils/step.py'
TR = S + 'microgrid/trajectory/'
RS = S + 'microgrid/reward_shaping/'
PL = S + 'algos/priority_list/priority_list.py'
PE = S + 'algos/priority_list/priority_list_element.py'
RB = S + 'algos/rbc/rbc.py'
EB = S + 'envs/base/base.py'
ED = S + 'envs/discrete/discrete.py'
GEN = S + 'MicrogridGenerator.py'

props = [
 P('C01', 'Every completed step balances energy, whatever the history',
   'In every completed step the energy provided by all modules equals the energy absorbed by all modules, with the whole load demand counted as absorbed. '
   'Renewables are drawn on only for the deficit left after the controlled modules and the unused part is reported as curtailment; what still cannot be matched is reported as lost load or as overgeneration, never both, and is exactly the residual. '
   'Flexible grids are deployed in order after the renewables; a microgrid without a balancing module raises an error in a step whose residual nothing can match. '
   'This holds in every step of every episode, including after resets, grid outages, failed steps and restoring from a checkpoint.',
   ['histories', 'configurations', 'fault_sequences', 'inputs'],
   'all mixes and numbers of modules (several of a kind, custom names), all action histories (in range, at limits, out of range, normalised or not), outages, resets, crash/restore points',
   'Tests run a few fixed microgrids with a few actions each; balance can break only for particular combinations of state, outage, clipped action and module mix, and the internal balance assertion has a loose tolerance and cannot see energy attributed to the wrong module.',
   [MG, ST, LO, RE, UN, CO],
   [('fixed modules first, then controlled, then flexible modules absorb excess or fill the deficit in order', MG + ' run'), ('energy totals', ST + ' balance'), ('balancing module takes the rest', UN)],
   ['information returned by a step', 'balance columns of the log', 'per-module energy columns of the log']),
 P('C02', 'No module ever exceeds its current limits, and actions are clipped exactly',
   'No module provides or absorbs more than its current limits allow: renewable availability, battery rate and headroom, genset range (also its minimum) while running and nothing while off, and grid import and export capacity, which are zero during an outage. '
   'A requested amount inside the limits is executed exactly; one outside is cut to exactly the nearest limit, or makes the step fail with an error if the module is configured to raise. '
   'The declared action space of a module spans exactly what it can ever be asked to move; sampled actions lie in it, and strictly sampled ones within the current limits.',
   ['histories', 'configurations', 'fault_sequences', 'inputs'],
   'all action histories against all reachable states and outage patterns, normalised and unnormalised, for raising and non-raising modules',
   'Limits depend on the state reached by the whole history (charge, start-up countdown, outage at this very step); tests check single steps from fresh modules.',
   [BM, BA, GE, GR, RE, MG, SP],
   [('clipping or raising at the limits', BM + ' as_source, as_sink'), ('state-dependent limits', BA + ', ' + GE + ', ' + GR), ('denormalisation of actions', SP)],
   ['energy amounts in the information returned by a step', 'errors raised by a step']),
 P('C03', 'Battery charge is conserved, bounded and always usable',
   'Over any history the stored energy of a battery changes, in each step, by exactly the absorbed energy times the efficiency or minus the provided energy divided by the efficiency (or by exactly what a user-supplied transition model says), and by nothing else. '
   'It never leaves its minimum and maximum capacity, and the reported state of charge is always the charge divided by the capacity. '
   'In every reachable state, however it was reached, the battery accepts every action without failing unless it is configured to raise.',
   ['histories', 'configurations', 'inputs', 'fault_sequences'],
   'all histories of charge, discharge and idle steps at, within and beyond the limits, all efficiencies and capacities, interrupted by checkpoint/restore and failed steps',
   'Rounding drift and boundary states only appear after particular long histories; tests use one or two steps from half charge.',
   [BA, BM],
   [('transition model with efficiency', BA + ' model_transition, default_transition_model'), ('update and clamping of the charge', BA + ' _update_state'), ('limits from charge', BA + ' max_production, max_consumption')],
   ['state of the battery before and after each step', 'energy amounts in the step information'],
   [('charge', 'energy stored', BA), ('state of charge', 'charge / capacity', BA)]),
 P('C04', 'Gensets start up and wind down exactly as configured',
   'A genset that is off and asked to run becomes available only after its configured start-up time in steps, a running one asked to stop remains running for its configured wind-down time, zero times act at once, and reversing the request aborts a change in progress and restarts its countdown. '
   'The reported status, goal and countdowns always match that, energy is produced only while running, and a reset returns the genset to its configured initial status.',
   ['histories', 'configurations', 'fault_sequences'],
   'all sequences of start/stop requests, start-up and wind-down times and initial statuses, with resets, failed steps and checkpoint/restore anywhere, including mid-change',
   'A state machine over request histories: tests cover a handful of scripted sequences per timing.',
   [GE, BM],
   [('status state machine', GE + ' update_status and helpers'), ('prediction used by controllers', GE + ' next_status, next_max_production, next_min_production')],
   ['genset state before and after each step', 'genset production'],
   [('status, goal, countdowns', 'start-up / wind-down progress', GE)]),
 P('C05', 'Costs, revenues, CO2 and rewards are accounted exactly',
   'The reward of every step is the sum over modules of: minus fuel and CO2 cost for gensets, minus battery cycling cost on the energy moved inside the battery, minus import price and plus export price at that very step and minus CO2 cost for the grid, minus the lost-load or overgeneration cost for the residual, and nothing for load and renewables. '
   'CO2 is reported as energy times intensity for gensets and imports and as none for exports. '
   'A reward-shaping function replaces the returned reward, given that step\'s complete information and current marginal costs, while the log keeps both values; the shapers provided give, for modules named as in the benchmark microgrids, the curtailed PV energy (negated) and the share of the load met by batteries less the share lost, within [-1, 1], in every step.',
   ['histories', 'configurations', 'inputs', 'fault_sequences'],
   'all histories, price/CO2/status series, linear or user-supplied fuel cost functions, shaping functions, outages, resets and restores',
   'The cost of a step depends on the step index, the direction, the clipped amounts and the state; tests compare few hand-picked amounts on single modules.',
   [GE, BA, GR, UN, ST, MG, RS],
   [('per-module cost', GE + ', ' + BA + ', ' + GR + ', ' + UN), ('summation and shaping', ST)],
   ['returned reward', 'reward and co2 columns of the log', 'arguments received by the shaping function']),
 P('C06', 'All modules share one clock, and episodes start and end where they should',
   'Every completed step advances all modules by exactly one and every module acts on the data of the same step. '
   'The step reports termination exactly from the last step of the episode on, an episode has final minus initial steps, and a reset always returns to the start of the episode. '
   'Under a trajectory function every reset starts a new non-empty episode within the configured range — exactly the one the function gave — and changing the range or restoring from a checkpoint keeps these bounds.',
   ['histories', 'configurations', 'fault_sequences', 'inputs'],
   'all histories of steps, resets, changes of the step range, checkpoint/restore and failed steps, with every kind of trajectory and all random choices of the stochastic ones',
   'Off-by-one and drift between modules shows only in particular windows, seeds and restore points; tests use fixed windows.',
   [BM, TS, MG, TR + 'stochastic.py', TR + 'deterministic.py'],
   [('step counter', BM + ' _update_step'), ('termination', TS + ' _done'), ('trajectory on reset', MG + ' _set_trajectory')],
   ['current step of every module', 'termination flag', 'values used versus the time series']),
 P('C07', 'The log is a faithful, complete record of the episode',
   'After any history the log has exactly one row per completed step of the current episode, indexed by the step it belongs to; each row holds the state every module acted on in that step (a genset\'s with that step\'s request applied) and its energy amounts and reward, and the totals, as that step returned them, unaltered by anything that happened later. '
   'All ways of reading it (frame, dict, without module numbers, per module, and what a reset returns of it) agree. Resetting empties the log, and restoring a checkpoint restores it.',
   ['histories', 'configurations', 'fault_sequences'],
   'all histories of steps, resets, checkpoint/restore and failed steps, any number of modules of a kind, trajectories',
   'Every row of an arbitrary history has to agree with what the run returned at that time; tests look at the shape or single values of short logs.',
   [LG, BM, MG, ST],
   [('per-module log before the state changes', BM + ' step, _log'), ('balance log', MG + ' run'), ('assembly', MG + ' get_log'), ('columns appended by value', LG)],
   ['the log data frame and the per-module logs']),
 P('C08', 'A restored checkpoint continues exactly like the original',
   'A microgrid or discrete environment saved at any point of any episode and restored — from a document string, a document file with its data files, a pickle or a deep copy — has the same configuration, state and log, and under the same actions from then on produces the same observations, rewards, termination, information and log as the uninterrupted original. '
   'The same goes for a module saved on its own. This holds for several modules of a kind, for several checkpoints kept side by side, repeatedly, and saving does not disturb the running original (a noisy forecast is drawn afresh on restoring; its settings are kept).',
   ['crash_points', 'histories', 'configurations', 'fault_sequences'],
   'all crash points between and within saves, all module mixes with representable parameters and deterministic forecasters, trajectories, shapers, all four persistence paths and chains of them',
   'Tests dump fresh or reset modules and compare equality; none continues from a restored mid-episode microgrid or keeps two checkpoints.',
   [SE, MG, BM, TS, LG, GE, BA, EB, ED],
   [('document representation', BM + ' serialize, deserialize; ' + MG + ' to_yaml, from_yaml'), ('data files per document and module', SE), ('log restoration', LG + ' from_raw')],
   ['run of the restored microgrid versus a reference that never stopped']),
 P('C09', 'Disk failures while saving or loading are never silent',
   'A save during which operating-system calls fail or write only in part either raises an error or leaves a checkpoint that restores in full; a save that returns normally can always be restored in full. '
   'A failed or interrupted save leaves the running microgrid and every other checkpoint, including ones in the same directory, as they were. '
   'Loading a checkpoint whose data files are missing, truncated or corrupted, or whose reads fail, raises an error or yields the saved microgrid, never a different one.',
   ['fault_sequences', 'crash_points', 'histories', 'configurations'],
   'every file operation of a save or load failing, being interrupted or being torn at any byte, with several checkpoints in one directory',
   'No test injects an I/O error or damages a file.',
   [SE, MG, BM],
   [('array data files are written before the document and compressed with checksums', SE + ' _dump_representation'), ('relative paths', SE + ' _pandas_df_constructor')],
   ['exceptions of save and load', 'contents restored afterwards']),
 P('C10', 'Microgrids, copies and controllers never influence one another',
   'Operations on one microgrid, environment or controller never change what any other shows or does, whatever the interleaving of their operations and however their threads are scheduled: those built from the same modules or data, copies, restored checkpoints, benchmark scenarios and the microgrid a rule-based controller was given are all independent. '
   'Data the caller passed in or received (modules, arrays, actions, results, logs) is not modified by later operations, and changing received results does not change the microgrid.',
   ['schedules', 'histories', 'configurations'],
   'all interleavings, at operation granularity and at source-line granularity across threads, of stepping, resetting, saving, loading, converting and reading several instances',
   'Tests use one instance at a time on one thread.',
   [MG, CO, EB, RB, SE, LG, GR, ST],
   [('modules are deep-copied on construction', MG + ' _get_module_container'), ('controllers copy the microgrid', RB), ('no class-level mutable state', CO + ', ' + EB)],
   ['history of each instance versus the history it has when run alone']),
 P('C11', 'Same seed and same actions give the same history, and only that',
   'Given the same configuration, the same seed of the global random generator and the same actions, every observation, reward, sampled action, trajectory, forecast and log is identical, in the same or another process, whatever the hash seed, the order in which directories are listed, the clock or previous use of the library. '
   'Except where sampling is documented, operations neither consume nor reseed the caller\'s random generator. '
   'Microgrids generated by a freshly constructed generator depend only on its seed.',
   ['schedules', 'histories', 'configurations', 'fault_sequences'],
   'all seeds and histories, re-executed under different process hash seeds, directory orders, clocks and prior activity',
   'Tests run once per process with whatever order the machine gives.',
   [MG, FC, GEN, S + 'convert/to_nonmodular_ops.py', BM, TR + 'stochastic.py', PL],
   [('all randomness comes from the global generator', FC + ', ' + BM + ', ' + TR), ('seeded generation', GEN)],
   ['full event log of two executions', 'state of the random generator around operations']),
 P('C12', 'Forecasts are aligned, bounded and never touch the data',
   'At every step of every history an oracle forecast equals the true next values of the series, positions past the end of the data hold the midpoint of the series bounds, and noisy or user-supplied forecasts have the configured length and lie within the bounds of the series; a module without a forecaster has none. '
   'This holds right after construction, steps, resets, changing the forecaster, the horizon or the series, and restoring a checkpoint. '
   'Forecasting, also with a forecaster that fails or leaves the bounds, never alters the time series that drives the simulation.',
   ['histories', 'configurations', 'fault_sequences', 'inputs'],
   'all series, horizons, forecasters and random draws, at every step including the last ones, with forecaster changes, resets, restores and failing forecasters',
   'Tests call forecasters on fixed positions; staleness after reset, restore or reconfiguration and end-of-data padding depend on the history.',
   [FC, TS, GR, LO, RE, MG],
   [('forecast recomputed as the clock moves', TS + ' _update_step, forecast'), ('padding and clipping', FC)],
   ['forecast entries of the state', 'the time series']),
 P('C13', 'Observations match the declared spaces and reading has no side effects',
   'Every observation returned by a step or a reset is the module\'s current state scaled by its declared observation bounds, lies in the declared space with the declared shape, and agrees with the reported state; observations past the end of the data are the midpoint values. '
   'Environments return exactly the declared flat, nested or selected form. '
   'Reading states, logs, spaces, bounds, costs or string forms, any number of times and anywhere in a history, changes nothing that follows.',
   ['histories', 'configurations', 'fault_sequences'],
   'all histories with reads interleaved anywhere, all module mixes, horizons, observation selections, and restores',
   'Tests compare a few observations; that reads are pure has to hold between any two operations.',
   [BM, TS, SP, EB, MG, BA, GE],
   [('normalisation by declared space', SP + ', ' + BM), ('environment observation assembly', EB)],
   ['returned observations versus state and space', 'twin run with and without reads']),
 P('C14', 'Priority-list control dispatches exactly by its list, in every state',
   'In every reachable state, rule-based control and the discrete environment ask the modules, in the order of the priority list, for as much of the load left over by renewables as each can deliver in the coming step (or, with a surplus, for as much as each can absorb), so that no later module is used while an earlier one could still help and load is lost only when all are exhausted; the minimum of a running genset counts as delivered (amounts below 1e-4 count as nothing). '
   'The actions of the environment are all orders of the controllable modules, each once; an action number means the same list throughout, also after a restore, and no action makes a step fail. The default rule-based list is ordered by marginal cost and lets every genset run.',
   ['histories', 'configurations', 'fault_sequences'],
   'all priority lists, action histories, outages, genset start-up and wind-down states, resets and restores',
   'The dispatch depends on the state reached and on outage and start-up timing; tests check small fixed cases and energy balance only.',
   [PL, PE, RB, ED],
   [('greedy dispatch', PL + ' _populate_action'), ('list enumeration and ordering', PL + ', ' + PE), ('execution', RB + ', ' + ED)],
   ['energy amounts of each step versus an independent greedy dispatch']),
 P('C15', 'Failures inside a step surface and a reset recovers completely',
   'If anything inside a step or reset fails — a user-supplied cost, transition, forecast, shaping or trajectory function raising, a missing control, a rejected action, or an interruption at any point — the error reaches the caller and nothing is reported as a completed step. '
   'After a following successful reset, at any later time, the microgrid is consistent again: one clock, an empty log, and further steps behave as specified from the state it then reports. '
   'A failed attempt never corrupts time series, configuration or other microgrids.',
   ['fault_sequences', 'crash_points', 'histories', 'configurations'],
   'exceptions at the n-th call of any user callback, asynchronous interruption at any executed line, rejected and malformed actions, repeated failures, then reset',
   'No test injects a failure in the middle of a multi-module step and continues.',
   [MG, BM, TS, GE, BA, LG, ST],
   [('reset restores the clock of every module and flushes every log', BM + ' reset; ' + MG + ' reset'), ('errors propagate', MG + ' run')],
   ['exceptions seen by the caller', 'state, clock and log after reset', 'subsequent steps versus the reference model']),
 P('C16', 'Old-style and modular microgrids convert into each other without loss',
   'An old-style (non-modular) microgrid with a load and PV and any of a battery, grid and genset, converted to a modular one, or a modular one converted back, at any point of a history and any number of times, keeps the series, limits, efficiencies, costs, forecast horizon and the present battery charge, and starts at the first step with an empty record. '
   'Asked in each step for amounts that both can execute, original and conversion then show the same flows, curtailment, lost load, overgeneration, battery charge, CO2 and costs (the modular battery counts its cycling cost on the energy inside it, and an old-style microgrid regards a mismatch below 1e-3 as met). '
   'Converting does not disturb the original, the two are independent afterwards, and a microgrid that has no old-style equivalent (no load, two modules of a kind) raises an error.',
   ['histories', 'configurations', 'fault_sequences', 'crash_points', 'inputs'],
   'all architectures, parameters and series, conversions in both directions and chains of them at any step, with resets, restarts and interruptions anywhere in a conversion; gensets without start-up time, nothing asked of the grid during outages, one CO2 cost',
   'Tests convert fresh scenarios and compare single fields; that the two kinds of microgrid agree is a statement about every later step of every history.',
   [S + 'convert/convert.py', S + 'convert/get_module.py', S + 'convert/to_nonmodular_ops.py', S + '_deprecated/non_modular_microgrid.py', MG],
   [('module per component', S + 'convert/get_module.py'), ('old-style parameters per module', S + 'convert/to_nonmodular_ops.py'), ('old-style step', S + '_deprecated/non_modular_microgrid.py run')],
   ['recorded flows, costs and CO2 of old-style steps', 'information and reward of modular steps', 'parameters and series of both']),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
for p in props:
    assert len(p['title']) <= 80, p['title']
print(len(props))
