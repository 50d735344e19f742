#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run after editing; checks never run this)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'dedop/proc/sar/'
A = S + 'algorithms/'
PROPS = []
OPEN = []       # (id, reason) of properties that are listed and not claimed


def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


REF = 'against an independent reference model of the step, plus the same comparison inside full processing runs'

P('C01', 'Geodetic and Cartesian coordinates agree with the ellipsoid and each other',
  'Converting latitude, longitude and altitude to Earth-centred Cartesian coordinates gives the point on the configured '
  'ellipsoid definition, and converting back returns the same latitude, longitude (modulo a full turn) and altitude, '
  'including the poles, the date line and negative altitudes. Array and scalar calls and degree and radian calls give the '
  'same answer, and angle normalisation returns the equivalent angle in the principal range.',
  'inputs configurations', 'all positions from -10 km to 2000 km altitude, all ellipsoids near the Earth\'s, scalars and arrays',
  'the tests convert a handful of fixed mid-latitude points with the WGS84 constants',
  ['dedop/proc/geo/ecef2lla.py', 'dedop/proc/geo/lla2ecef.py', 'dedop/proc/geo/normalize.py'], [('closed-form inverse and direct formulas', 'dedop/proc/geo/ecef2lla.py')],
  'property-based testing: round trip and iterative reference conversion',
  'Random search over positions and ellipsoids with the poles, equator and date line weighted; tolerance 1 cm near the surface, 4 cm at orbit height (the closed form is not exact there).')

P('C02', 'Configuration values are exactly what the auxiliary files say',
  'A characterisation, constants or configuration file that is loaded reports for every parameter exactly the value written '
  'in the file (or the documented default when an optional one is absent), independently of any other file loaded in the same '
  'process. A file that lacks a mandatory parameter or has another version is refused with the specific error, and unknown '
  'parameters only cause a warning. Derived quantities (wavelength, chirp slope, intervals, flattening and the like) follow from the values in the file.',
  'inputs configurations histories', 'all assignments of values to parameters, all subsets of optional ones, several files open at the same time',
  'the tests load one fixed file per kind', ['dedop/conf/auxiliary_file_reader.py', 'dedop/conf/auxiliary_parameter.py', 'dedop/conf/characterization.py', 'dedop/conf/configuration.py', 'dedop/conf/constants.py'],
  [('declarative parameters with defaults', 'dedop/conf/auxiliary_parameter.py'), ('loading and version check', 'dedop/conf/auxiliary_file_reader.py')],
  'property-based testing: generated JSON files against the written values', 'Random JSON documents for all three kinds with missing, extra, wrong-version and default parameters; values of the JSON type the shipped files use.')

P('C03', 'A burst read from an L1A product has that record\'s content',
  'The burst obtained for record i of an L1A product carries the time, orbit, attitude, tracking, calibration and echo content '
  'of exactly that record, with the documented scaling and unit conversions, whatever records were read before, in whatever order, '
  'and whatever other products are open.',
  'inputs histories', 'all products, all sequences of record accesses including backward jumps across internal block boundaries',
  'the tests read a few records of one product in order', ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/input/input_dataset.py', 'dedop/model/l1a_processing_data.py'],
  [('block cache of the reader', 'dedop/data/input/l1a/l1a_dataset.py')],
  'property-based testing: random access sequences on synthetic products against a netCDF-level reference', 'Products written with the Sentinel-3 names, types and scale factors; no fill values.')

P('C04', 'Exactly the usable records inside the region of interest are processed',
  'With latitude and longitude limits configured, processing uses exactly the usable records that '
  'lie inside the (inclusive) limits, in order, and with none configured all usable records; records without a position are skipped without ending the input, and a region '
  'that contains no record yields no records instead of an error.',
  'inputs configurations', 'all tracks, all combinations of limits (including limits equal to a record\'s coordinates), all patterns of unusable records',
  'the tests use one product without limits', ['dedop/data/input/l1a/l1a_dataset.py', S + 'processor.py'],
  [('first and last index of the region', 'dedop/data/input/l1a/l1a_dataset.py')],
  'property-based testing: generated tracks and limits against a brute-force selection', 'Limits at, just inside and just outside record coordinates; full processing runs in addition.')

P('C05', 'Each enabled calibration is applied to every burst exactly once',
  'When CAL1 is enabled every pulse of every burst is multiplied by its own amplitude and phase correction and the gain difference, '
  'and when CAL2 is enabled its range spectrum is divided by the square root of the filter response of the burst; each is applied exactly once per burst, in full '
  'processing also for the first burst after a gap, and a disabled correction leaves the echoes bit for bit unchanged.',
  'inputs configurations histories', 'all bursts and correction tables, all flag combinations, products with gaps and unusable records',
  'no test runs the calibration inside the chain; the unit tests use one vector', [S + 'cal/cal1_algorithm.py', S + 'cal/cal2_algorithm.py', S + 'processor.py'],
  [('CAL1 and CAL2 steps', S + 'processor.py')], 'property-based testing: ' + REF, 'Random echoes, tables and gain settings; in the chain the bursts of the stacks are compared with the reference.')

P('C06', 'Surface locations follow the ground track at the azimuth resolution',
  'The first surface location is the nadir point of the first burst, and every following one is created exactly when the angle seen from the satellite position '
  'of the last one reaches the angular azimuth resolution; all its attributes (time, position, orbit, attitude, window delay, track) are interpolated between the two bursts around it, '
  'and the locations are numbered consecutively.',
  'inputs configurations', 'all orbits, instruments, sampling ratios and terrain profiles; products with gaps and unusable records',
  'the unit test compares two locations of one orbit', [A + 'surface_locations.py', 'dedop/model/surface_data.py'],
  [('surface location step', A + 'surface_locations.py')], 'property-based testing: ' + REF, 'Decisions closer to the threshold than rounding are not judged.')

P('C07', 'Surface focusing moves one location onto the target, and one only',
  'With surface focusing enabled and a target abeam of the track, exactly one surface location is moved along the track to the foot of the perpendicular from the target '
  'and marked as focused, and all others keep the places they would have had; with focusing disabled, or after the target was passed, nothing is moved.',
  'inputs configurations histories', 'all tracks and targets up to 20 km to the side, including several segments and files',
  'the unit test covers one target', [A + 'surface_locations.py'], [('focusing branch of the surface location step', A + 'surface_locations.py')],
  'property-based testing: ' + REF, 'Targets abeam of the interior of the track.')

P('C08', 'A burst forms beams to exactly the surfaces in its Doppler field of view',
  'The beams of a burst are directed at exactly the surface locations inside its Doppler field of view, in order, at most as many as there are pulses '
  '(the latest ones are kept), each with the angle between the velocity and the direction to that surface; the nadir beam and the working surface are those the '
  'geometry defines and the trend of the number of beams restarts after a gap.',
  'inputs histories', 'all orbits, attitudes, instruments and positions of the burst relative to the surfaces',
  'the unit test compares one burst', [A + 'beam_angles.py', S + 'processor.py'], [('beam angle step', A + 'beam_angles.py')],
  'property-based testing: ' + REF, 'Decisions within 1e-7 rad of the edge of the field of view are not judged.')

P('C09', 'Azimuth processing steers the pulses of a burst to its beams',
  'The beams of a burst are the centred unitary Fourier transform over the pulses after rotating each pulse by its Doppler phase: the exact method rotates per beam, '
  'the approximate one once for the nadir beam and shifts the rest, and the configured window (none, boxcar, Hamming, Hanning) of the configured width weights the pulses '
  'first. A point scatterer in the direction of a beam gives its maximum in that beam.',
  'inputs configurations', 'all numbers of pulses and beams, all beam directions, methods, windows and widths',
  'the existing unit tests of this step fail at the pinned commit', [A + 'azimuth_processing.py'], [('steering and transform', A + 'azimuth_processing.py')],
  'property-based testing: direct DFT reference, point-target metamorphic check, comparison inside full runs', 'Tolerance 1e-9 relative to the burst energy.')

P('C10', 'The stack of a surface holds its looks, in order, limited around nadir',
  'The stack of a surface contains the beams of all bursts directed at it in burst order, each with its own beam, Doppler, look and pointing angle; when there are more looks '
  'than the configured maximum, those nearest to nadir are kept, and unused places are empty. The closest burst is the one whose beam is nearest to broadside.',
  'inputs configurations', 'all numbers and distributions of looks, all stack limits, bursts of both on-board processing types',
  'the unit test gathers one stack', [A + 'stack_gathering.py', 'dedop/model/surface_data.py'], [('stack gathering step', A + 'stack_gathering.py')],
  'property-based testing: ' + REF, 'Selections decided by less than 1e-7 rad are not judged.')

P('C11', 'Geometry corrections align every look with the surface',
  'Every look of a stack is shifted by the sum of its window delay, slant range (if enabled) and Doppler (if enabled) corrections computed from its own range, velocity and '
  'angle relative to the surface, by a phase ramp that keeps its energy; the reported corrections and ranges are those applied and unused places stay empty.',
  'inputs configurations', 'all stacks and flag combinations', 'the existing unit tests of this step fail at the pinned commit',
  [A + 'geometry_corrections.py'], [('corrections and phase ramp', A + 'geometry_corrections.py')], 'property-based testing: ' + REF, 'Relative tolerance 1e-9.')

P('C12', 'Range compression is the centred zero-padded spectrum of each look',
  'The compressed looks are the unitary Fourier transform of the aligned looks over zero-padding factor times samples bins with zero frequency in the middle, and the power waveforms are '
  'their squared magnitude, so energy is preserved; only the looks of the stack are present.',
  'inputs configurations', 'all stacks and zero-padding factors', 'the unit tests of this step are skipped', [A + 'range_compression.py'],
  [('range compression step', A + 'range_compression.py')], 'property-based testing: direct DFT reference and tone metamorphic check, plus comparison inside full runs', 'Relative tolerance 1e-9.')

P('C13', 'The stack mask removes exactly wrapped samples and looks outside the limits',
  'With stack masking enabled, a look shifted by some whole number of samples loses exactly the samples that wrapped around, looks outside the configured look angle limits are removed completely, '
  'and everything else is kept; the reported mask vector gives, per look, where its trailing masked samples begin (the last index if there are none, zero if the look is masked completely). With masking disabled nothing is removed.',
  'inputs configurations', 'all stacks, shifts of either sign and any size, limits and zero-padding factors', 'the unit tests use one stack with one set of shifts',
  [A + 'stack_masking.py'], [('geometry mask and angle limits', A + 'stack_masking.py')], 'property-based testing: ' + REF, 'Shifts within 1e-6 of half a sample are not judged.')

P('C14', 'The multilooked waveform is the mean of the contributing looks',
  'The multilooked waveform is, sample by sample, the mean of the looks that are not completely masked, each weighted (if enabled) by the antenna pattern interpolated at its pointing angle; with zero avoidance only unmasked '
  'samples count. The reported start and stop angles, number of looks and per-look vectors are those of the first to the last contributing look, and the burst indices those of the first and last look of the stack.',
  'inputs configurations', 'all stacks, masks, antenna patterns and flag combinations', 'the existing unit tests of this step fail at the pinned commit', [A + 'multilooking.py'],
  [('multilooking step', A + 'multilooking.py')], 'property-based testing: ' + REF, 'A waveform to which no look contributes is not judged.')

P('C15', 'Stack statistics describe the Gaussian that fits the power of the looks',
  'The peak and standard deviation reported for a stack are those of the least-squares Gaussian of the relative power of the (up to 249 central) looks against look angle, and its skewness and kurtosis those of '
  'the curve fitted against the look number; the standard deviation is never negative and a stack without power is characterised without an error.',
  'inputs configurations', 'all stacks: planted Gaussians with noise, lost looks, fully masked stacks, up to 300 looks', 'the existing unit tests of this step fail at the pinned commit and use one stack',
  [A + 'multilooking.py'], [('stack characterisation', A + 'multilooking.py')], 'property-based testing: planted Gaussians and an independent fit judged where it is well conditioned',
  'Fits that perturbations of 1e-8 move are not judged.')

P('C16', 'The sigma-0 scaling factor is the radar equation of the stack',
  'The sigma-0 scaling factor of a record equals the radar equation evaluated with the configured instrument, the ranges of the looks of its stack, the resolution cell at their range and the gain of its closest burst, averaged over the looks.',
  'inputs configurations', 'all stacks and instruments', 'the unit tests of this step are skipped', [A + 'sigma_zero_scaling.py', S + 'processor.py'], [('sigma-0 scaling step', A + 'sigma_zero_scaling.py')],
  'property-based testing: ' + REF, 'Relative tolerance 1e-9.')

W = 'dedop/data/output/'

P('C17', 'The written products hold exactly the records of the processing',
  'A run writes the L1B product in the configured format, and the L1BS product if requested, each with exactly the records that the input product gives rise to, in order and once, and nothing else; every value read back from a record '
  'equals the value computed for it to the resolution of its variable, and the housekeeping values of a record are those of the input burst closest to its surface.',
  'inputs configurations', 'all products (with interruptions and unusable records), option combinations and output formats', 'no test looks at the content of an output product of a full run',
  [S + 'processor.py', W + 'l1b_writer.py', W + 'l1bs_writer.py', W + 'netcdf_writer.py'], [('main loop and writers', S + 'processor.py')],
  'property-based testing: generated products processed into files, judged with a reference model of the record sequence and an own decoder',
  'Products of 84 to 130 bursts with 4 pulses; positions to 0.3 m, times to 10 us, packed values to half a step.')

P('C18', 'An interruption of the acquisition separates the track',
  'A burst that follows its predecessor by at least one and a half burst intervals starts a new run: no record uses bursts of both sides, and every run, however short, contributes exactly the records it would '
  'contribute as a product of its own (with the surfaces numbered on).',
  'inputs histories', 'all positions, lengths and numbers of interruptions, also next to each other and near the ends', 'the tests process products without interruptions',
  [S + 'processor.py'], [('gap handling in the main loop', S + 'processor.py')],
  'property-based testing: reference model of the runs, and metamorphic comparison with the separately processed parts', 'Intervals within 1e-6 of the threshold are not judged.')

P('C19', 'A run depends on its product and configuration only',
  'Processing a product gives the same records whether the processor is new or has processed, cancelled or refused other products before, and whether other processors exist or run in the middle of it; a second run into the same folder replaces its files by '
  'equal ones and leaves other files there alone; the L1B product is the same with and without L1BS; the input file is never changed.',
  'histories inputs', 'all sequences of complete, cancelled and refused runs over several products and processors', 'the tests use every processor once',
  [S + 'processor.py', 'dedop/model/processor.py', A], [('state reset at the start of a run', S + 'processor.py')],
  'property-based testing: random run histories, differential against fresh processors, bit-exact', 'Histories of 2 to 4 runs over 3 products and 2 processors.')

P('C20', 'A cancelled run ends early and leaves the finished records',
  'When cancellation is requested at any moment, processing ends after at most a few more records, reports it by its status, tells the monitor one start and one end, and leaves complete, readable products that hold '
  'exactly the first records of the uncancelled run and the global attributes; a run that reports to be complete has all records. The progress told to the monitor never exceeds its total, and reaches it in a complete run.',
  'schedules inputs', 'all moments of the request (during reading, processing, interruptions and at the end)', 'no test cancels a run',
  [S + 'processor.py', 'dedop/util/monitor.py'], [('cancellation test in the main loop', S + 'processor.py')],
  'property-based testing with injected cancellation: differential against the uncancelled run', 'Requests at the n-th cancellation test or progress call.')

P('C21', 'The extended L1B product stores each value of a record at its resolution',
  'Every variable of a record of the extended L1B product, decoded with its scale factor and offset, equals the value of the record (or of its closest burst) in the stated unit to half a step, for every value that the type of the '
  'variable can hold; the waveform is stored relative to its maximum with its scale factor; per-look variables hold the looks of the stack in order.',
  'inputs', 'all record contents including the extremes of the packed types, stacks of any size', 'the tests check two variables of one record', [W + 'l1b_writer.py', W + 'netcdf_writer.py'],
  [('record writing of the extended format', W + 'l1b_writer.py')], 'property-based testing: write and read back with an own decoder against the record', 'Values beyond the packed type are not judged.')

P('C22', 'The Sentinel-3 L1B product stores each value of a record at its resolution',
  'Every variable of a record of the Sentinel-3 format L1B product, decoded with its scale factor and offset, equals the value of the record (or of its closest burst) in the stated unit to half a step, for every value that the type '
  'of the variable can hold, including the power waveform and, as beam angles, the negated look angles of the stack.',
  'inputs', 'all record contents including the extremes of the packed types, stacks of any size', 'no test writes this format', [W + 'l1b_writer.py', W + 'netcdf_writer.py'],
  [('record writing of the Sentinel-3 format', W + 'l1b_writer.py')], 'property-based testing: write and read back with an own decoder against the record', 'Values beyond the packed type are not judged.')

P('C23', 'The L1BS product stores each value and the complex stack of a record',
  'Every variable of a record of the L1BS product, decoded with its scale factor and offset, equals the value of the record (or of its closest burst) in the stated unit to half a step, for every value that the type of the variable '
  'can hold; the I and Q samples of every look times the scale factor of the record equal the complex stack to one step, the largest component uses the full range, and places beyond the stack hold the fill value.',
  'inputs', 'all record contents including the extremes of the packed types, stacks of any size', 'the tests of this writer are skipped', [W + 'l1bs_writer.py', W + 'netcdf_writer.py'],
  [('record writing of L1BS', W + 'l1bs_writer.py')], 'property-based testing: write and read back with an own decoder against the record', 'Values beyond the packed type are not judged.')

P('C24', 'UTC and GPS times of a record are its time, also across midnight',
  'In every output product the UTC day and second of a record denote the same instant as its time, derived from the burst before it, with the seconds starting again at the end of the (possibly leap) day, and the GPS time is its time on the GPS scale.',
  'inputs', 'all times, including tracks across midnight and days with a leap second', 'the tests use one day', [W + 'l1b_writer.py', W + 'l1bs_writer.py', 'dedop/model/surface_data.py', A + 'surface_locations.py'],
  [('day rollover in the writers', W + 'l1b_writer.py')], 'property-based testing: independent calendar arithmetic on written products', 'The instant of midnight may be told either way; the records within an inserted second are not judged.')

P('C25', 'Names and global attributes of the products follow from the input',
  'The products are named L1B and L1BS followed by the name of the input file (without an L1A prefix) and of the configuration; they carry the descriptive attributes of the input product (or "Not available"), the product name with the level '
  'replaced, the title of the level, the software version, the ellipsoid, a creation time during the run, and the times of the first and last input record of the region.',
  'inputs configurations', 'all input file names, configuration names, subsets of attributes and regions of interest', 'the tests do not read attributes', [S + 'processor.py', 'dedop/data/input/l1a/l1a_dataset.py', 'dedop/util/time.py'],
  [('global attributes at the end of a run', S + 'processor.py')], 'property-based testing: generated names and attributes against the documented rules', 'Attributes are text.')

WM = 'dedop/ui/workspace_manager.py'
CLI = 'dedop/cli/main.py'

P('C26', 'Workspace operations act on exactly the workspace they name',
  'After any sequence of creating, copying, renaming, deleting and selecting workspaces the workspaces directory holds exactly what those operations say: a copy has the content of its source, a rename keeps it, a deletion removes that '
  'workspace and nothing else, and every other workspace and file stays as it is. An operation that cannot be done (missing source, existing target, empty name) is refused with an error of the workspace manager and changes nothing. '
  'The listing and the current workspace agree with what is there, also from a new process.',
  'inputs histories', 'all sequences of operations over colliding, missing and empty names, with stray files and restarts in between',
  'the tests run each operation once on a fresh directory', [WM], [('directory tree with .current files', WM)],
  'stateful property-based testing against a reference model of the directory tree', 'Histories of 6-18 operations; the whole tree is compared after every one; one process at a time.')

P('C27', 'Configuration operations act on exactly the configuration they name',
  'After any sequence of creating, copying, renaming, deleting and selecting configurations in any workspaces the directories hold exactly what those operations say, including edited parameter files, which a copy and a rename preserve byte for byte; '
  'an operation that cannot be done is refused with an error of the workspace manager and changes nothing. A new configuration contains the default characterisation, constants and configuration parameters of the chosen mission at the current version and is accepted by the processor, '
  'which then uses the values in its files, edits included.',
  'inputs configurations histories', 'all sequences of operations over colliding, missing and empty names in several workspaces; all edits of a new configuration',
  'the tests run each operation once on a fresh directory', [WM, 'dedop/ui/data/config'], [('configs directories with template files', WM)],
  'stateful property-based testing against a reference model of the directory tree', 'Histories over two workspaces, parameter files with arbitrary JSON; the shipped templates are taken as the reference of a new configuration.')

P('C28', 'Upgrading a configuration applies exactly the changes since its version',
  'Upgrading a parameter file adds the parameters added since its version with their default, replaces those changed, removes those removed, sets the current version, and keeps every other parameter exactly as the user set it; '
  'upgrading a current file changes nothing, and the upgraded configuration is accepted by the processor.',
  'inputs configurations histories', 'all versions of a file, all changelogs, all sets of edited, extra and missing parameters', 'the tests upgrade one example file', [WM, 'dedop/ui/data/config'],
  [('changelog interpretation', WM)], 'property-based testing: generated changelogs with the resulting templates as the model; shipped templates taken back to older versions', 'Changelogs of up to five versions with several changes each, and all versions of the shipped files.')

P('C29', 'Inputs, outputs and notebooks of a workspace are exactly those put there',
  'After any sequence of adding and removing inputs and writing outputs a workspace holds byte-exact copies of the files added and not removed, under their names, and the sources are never touched; listings, optionally with a shell pattern, report every matching file '
  'exactly once and nothing else; removing deletes exactly the named files of that workspace, and clearing outputs exactly those of that configuration. Every notebook created to inspect or compare products is a new file that is valid and opens '
  'the products named, in the order given, and never overwrites another; one that cannot be created is refused.',
  'inputs histories', 'all sequences over several workspaces and configurations, with names that look like patterns and products with any characters in their path', 'the tests use two files and one pattern', [WM],
  [('glob-based selection', WM), ('notebook templates', WM)], 'stateful property-based testing against a reference model of the directory tree', 'The whole tree is compared after every operation; generated notebooks are parsed and executed up to the call that opens the product.')

P('C30', 'Workspace and configuration commands do what they say or refuse',
  'Every sequence of workspace and configuration commands on the command line leaves the workspaces directory as the documented meaning of the commands says, with omitted names defaulting to the current one, generated copy names never colliding, '
  'removal asking for confirmation and doing nothing unless it is given, listings showing exactly what is there, and a command that cannot be done ending with a message and a non-zero status, changing nothing.',
  'inputs histories', 'all command sequences with and without names, options and confirmations', 'the tests of the command line cannot run here and cover each command once', [CLI, WM],
  [('argument handling and defaults', CLI)], 'stateful property-based testing against a reference model of the commands', 'The argument parser of the absent cate package is replaced by a stand-in; the commands run in-process.')

P('C31', 'Input, output and run commands act on exactly the files they name',
  'Every sequence of input, output and run commands on the command line copies, lists, removes and processes exactly the files that the given or default workspace, configuration and patterns denote: a run hands each selected input once, in order, with the files of the configuration '
  'to the processor and writes to the outputs of that configuration (or the given directory), all configurations when asked to; inspect and compare open the product meant. A command that cannot be done ends with a message and changes nothing.',
  'inputs histories', 'all command sequences with and without workspaces, configurations, patterns and confirmations', 'the tests of the command line cannot run here and cover each command once', [CLI, WM],
  [('selection of inputs and configurations of a run', CLI)], 'stateful property-based testing against a reference model of the commands', 'The processor is a recording stand-in here (C17-C20 decide the processing); the cate package is replaced by a stand-in.')

P('C32', 'The web service manages workspaces like the manager and answers in JSON',
  'Every sequence of requests to the web service leaves workspaces, configurations, inputs and parameter files as the requests say, answers with what is there in JSON-serializable form, and refuses what cannot be done without changing anything; '
  'coordinates and attributes of an input product are those in the file, and a run requested from the service produces what the processor produces with the files of that configuration. Notebooks requested to inspect or compare outputs are made, opened and listed like those of the manager.',
  'inputs histories', 'all sequences of requests, all input products', 'no test of the web service can run here', ['dedop/webapi/websocket.py', WM], [('methods of the service', 'dedop/webapi/websocket.py')],
  'stateful property-based testing against a reference model of the requests; differential runs against the processor', 'The transport (cate package, tornado) is not exercised; which remaining one becomes current after a deletion is left open.')

P('C33', 'Progress adds up to the whole, and a request to cancel reaches the task',
  'Whatever the nesting of tasks and subtasks and the steps in which they report, every piece of work reported by a subtask of known size arrives at the top as its share of the work handed to that subtask, so that completed subtasks add up to exactly the total; one of unknown size '
  'still passes on its messages; a task that fails is done exactly once and its error passes through; a request to cancel is visible to every level at once. '
  'The console shows the work done so far, never more than the total, ends its line, and Ctrl+C requests cancellation while the task runs and only then.',
  'inputs histories fault_sequences', 'all nestings, step sizes, failures and moments of cancellation', 'the tests use one nesting with even steps', ['dedop/util/monitor.py'], [('child monitors', 'dedop/util/monitor.py'), ('console monitor', 'dedop/util/monitor.py')],
  'property-based testing: random task trees against exact accounting; parsing of the console output', 'Totals are positive and not exceeded.')

P('C34', 'Tool settings come from the configuration files, the local one first',
  'A setting of the tools has the value that the configuration file of the current directory gives it, else that of the user\'s configuration file, else the default; files may compute their values, a broken file is reported and does not hide the other, '
  'and paths that start with the home directory sign are expanded. The command line keeps its workspaces in the directory, and runs inputs with the processor, that the settings name; a processor that refuses an input ends the run with an error message.',
  'inputs configurations', 'all combinations of present, absent and broken files and of parameters they set', 'the tests read one file', ['dedop/util/config.py', CLI, 'dedop/model/processor.py'], [('lookup over configuration files', 'dedop/util/config.py')],
  'property-based testing: generated configuration files against the documented precedence', 'Each case starts from a fresh evaluation, as a process does.')

P('C35', 'Inspecting and comparing products shows what is in the files',
  'A product opened for inspection reports the positions, times, attributes, variables and scaled waveforms in its file, two products compared report those of each and their difference, and products that are no L1B or differ in shape are refused. '
  'Every figure shows the data asked for (the named variable, record or cut, within the given limits) and is saved once, as its own file in the output directory or a page of the PDF, in the format that the output path or format names. '
  'In a notebook figures are shown instead, and what was not given can be chosen: every record and every variable that fits is offered, and a choice shows the data chosen. Every cell of a notebook made to inspect or compare products runs on products of sufficient length.',
  'inputs histories', 'all product contents, all sequences of plots with all arguments, output to directories and PDF', 'the tests of these modules cannot run here and only look for files', ['dedop/ui/inspect.py', 'dedop/ui/compare.py', 'dedop/ui/figurewriter.py'],
  [('inspector and plots', 'dedop/ui/inspect.py'), ('comparator', 'dedop/ui/compare.py')], 'property-based testing: generated products and plot sessions; the artists of the figures against the written content', 'Figures are judged by the data of their artists, not by pixels; widgets are driven by their values, not by a browser.')

P('C36', 'Opening a notebook or a file runs the configured command with the right paths',
  'Opening a notebook (for a workspace, or made to inspect or compare products), the files of a configuration or an outputs folder runs one command for each: the configured one with its placeholders replaced or, without one, the first terminal or opener that is installed (for notebooks, jupyter itself if there is none). '
  'Jupyter gets the folder and the notebook, the editor the file, as they are named, also when names contain spaces, braces or other punctuation; a setting that is not a non-empty text, and a command that fails to launch a notebook, are reported as a workspace error, and a setting that is refused runs nothing.',
  'inputs configurations', 'all names, settings and sets of installed programs', 'no test launches anything', [WM, 'dedop/util/config.py'], [('launch_notebook', WM), ('open_file', WM)],
  'property-based testing: real commands against stand-in programs in a scratch directory that record their arguments', 'Linux only; names without characters that a shell interprets in double quotes; the exit status of editors is not judged.')

P('C37', 'The processing has the symmetries of the measurement',
  'Turning a whole pass over another meridian (also across the date line), mirroring it to the other hemisphere or moving it by whole days turns, mirrors or moves the records and changes nothing else about them; echoes k times as strong give the same records with '
  'k times the complex looks and k squared times the power; other echoes in one burst change only that look and what is averaged from it, in the records that contain the burst; bursts appended after the end leave every record that was complete by then as it was.',
  'inputs', 'all orbits, terrains, instruments, options and positions of the change', 'tests process one product and compare it with a stored one', [S + 'processor.py', S + 'algorithms', 'dedop/model'],
  [('main loop and algorithms of the chain', S + 'processor.py')],
  'property-based testing: metamorphic comparison of the records of two runs of the real processor on generated products', 'Passes with a decision closer to its threshold than rounding are not judged.')

P('C38', 'A session on the command line produces exactly the products of the processor',
  'Whatever was set up, edited, copied, selected and run before, "dedop run" leaves in the outputs of the configuration (or the given directory) for each input exactly the files, bit for bit, that the processor produces from that input with the current parameter files of that configuration, '
  'with or without L1B-S as asked and regardless of progress output; an input that cannot be processed ends the run with an error and leaves the products made before it.',
  'inputs configurations histories', 'all sequences of edits, selections, copies and runs over several configurations and inputs', 'no test of the command line can run here, none runs the processor from it', [CLI, WM, S + 'processor.py'],
  [('RunProcessorCommand', CLI)], 'stateful property-based testing: differential comparison with the processor called directly', 'The argument parser of the absent cate package is replaced by a stand-in; the commands run in-process.')

P('C39', 'When nothing more can be written, it is reported and nothing is destroyed',
  'Whenever the disk is full or a file cannot grow, a workspace operation (creating, copying, renaming, selecting, editing, upgrading, adding, removing, making notebooks) either has its full effect or fails with a workspace error; a failed one leaves every file and folder that was '
  'there as it was, an edited configuration file or a current selection with its old or its new content, no file that the operation would not make, and new files with at most a part of their content. '
  'A processing run that cannot write all of its products fails with an error, leaves the input and other products alone, and never reports to be complete.',
  'inputs fault_sequences', 'all operations, all contents of the workspaces, all amounts of space left', 'no test lets a write fail', [WM, S + 'processor.py', W + 'netcdf_writer.py'],
  [('writing of configurations and current selections', WM), ('closing of products', W + 'netcdf_writer.py')],
  'property-based testing with injected faults: real write failures (file size limit) against the same operation with enough space', 'A file size limit stands for a full disk. An input that is replaced by a new one of the same name is not protected.')

# MORE


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    closed = dict(OPEN)
    checks = []
    for p in PROPS:
        if p['id'] in closed:
            continue
        assert os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')), p['id']
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'], 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, netCDF4"', 'checks': checks,
                   'not_applicable': [{'property': a, 'reason': b} for a, b in OPEN]}, f, indent=1)
        f.write('\n')


main()
