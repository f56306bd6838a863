"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both files are committed)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SIM, DC, DD, DP = "src/aspsim/simulator.py", "src/aspsim/diagnostics/core.py", "src/aspsim/diagnostics/diagnostics.py", "src/aspsim/diagnostics/plot.py"
ARR, SRC, TRJ = "src/aspsim/array.py", "src/aspsim/signal/sources.py", "src/aspsim/room/trajectory.py"
REG, GEN, RIR = "src/aspsim/room/region.py", "src/aspsim/room/generatepoints.py", "src/aspsim/room/roomimpulseresponse.py"
SES, FU, CU, PROC, UTIL = "src/aspsim/saveloadsession.py", "src/aspsim/fileutilities.py", "src/aspsim/configutil.py", "src/aspsim/processor.py", "src/aspsim/utilities.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


prop("C01", "Every microphone signal is the multichannel convolution of all sources",
     "In a simulation with static arrays, the signal recorded at each microphone equals, for every sample of the run, the sum over all free and controllable sources and all their channels of the source signal convolved with the impulse response of that source/microphone pair. Nothing is lost, delayed or counted twice at block, chunk or buffer boundaries, and a source without a path (response zero) contributes nothing.",
     ["inputs", "configurations"], "all source signals, all impulse responses (incl. longer than a block or a chunk), all numbers of arrays/channels, block, chunk and buffer sizes",
     "The tests compare a handful of random signals through one path each; the convolution is a statement about every signal, response, array combination and size.",
     [SIM, ARR], [("filter bank per source/microphone pair", SIM + " Propagator"), ("buffer shift at chunk end", SIM + " Signals._reset_signals"), ("main loop", SIM + " Simulator.run_simulation")],
     ["recorded microphone signals of a simulation"])
prop("C02", "Chunk and buffer sizes never change the simulated signals",
     "For the same setup, sources, responses and processor, the recorded signals of all arrays are the same for every admissible choice of chunk size and buffer size, with and without a processor, and a shorter simulation is a prefix of a longer one.",
     ["inputs", "configurations"], "all pairs of admissible (chunk size, buffer size), all signals and responses, all lengths",
     "Tests use few fixed sizes; the property relates two runs over all pairs of sizes, where boundary-coincidences decide.",
     [SIM], [("buffer shift at chunk end", SIM + " Signals._reset_signals"), ("end of buffer decision", SIM + " Simulator.last_block_on_buffer"), ("filter state", SIM + " Propagator.propagate")],
     ["recorded signals of two simulations"])
prop("C03", "Signal recordings hold every requested sample exactly once, at its place",
     "A signal recording over any set of non-overlapping intervals contains, for each requested sample index, exactly the value the signal had at that index, for the selected channels in the selected order, and stays empty (nan) at all other indices. This does not depend on where chunk, buffer or processing block boundaries fall.",
     ["inputs", "configurations", "histories"], "all sets of record intervals, channel selections, simulation lengths, chunk/buffer/block sizes, all sample values; single steps for arbitrary (unbounded) times",
     "Tests record whole runs or a single choice of intervals; a lost or shifted sample needs an interval end to coincide with a buffer reset.",
     [DC, DD], [("which samples are due", DC + " Logger.save_data"), ("progress through intervals", DC + " IntervalCounter"), ("copy into the record", DD + " RecordSignal.save")],
     ["RecordSignal.get_output()"])
prop("C04", "One export file per export point, holding exactly what was recorded before it",
     "For every export point k up to the end of the simulation each exporting diagnostic writes exactly one file named <name>_<k>, keyed by the diagnostic's name, that contains precisely the values recorded for indices before k (the value at k for instantaneous diagnostics); no other files appear. With keep-only-last set, only the newest file of that diagnostic remains and files of other diagnostics are untouched.",
     ["configurations", "histories"], "all export frequencies/lists, record intervals, save frequencies, chunk/buffer/block sizes, diagnostics kinds, keep-only-last on/off",
     "Tests check a few export settings whose points are hit while recording goes on; exports after recording ended, partial windows and name clashes are never reached.",
     [DC, DP, FU], [("which exports are due", DC + " Logger.export_this_idx"), ("values before the export index", DC + " get_values_up_to_idx, get_values_from_selection"), ("npz writing and removal of earlier files", DP + " savenpz")],
     ["files in the figure folder"])
prop("C05", "Processors see every block once, and their output is played one block later",
     "A processor with block size B is called once per block, in order, with B samples that are exactly the next B samples of every signal, after one preparation call. What it writes in its j-th call is played from sample (j+1)B on, and is heard at the microphones through the paths.",
     ["inputs", "configurations", "schedules"], "all block sizes, simulation lengths, chunk/buffer sizes, signals and processor outputs",
     "The tests use a pass-through processor and a few sizes; ordering of processing, propagation and buffer reset must be right for every combination.",
     [SIM, PROC], [("scheduling", SIM + " Simulator.run_simulation"), ("buffer shift keeps written future samples", SIM + " Signals._reset_signals")],
     ["arguments and buffer contents in process calls; recorded loudspeaker signals"])
prop("C06", "Source contributions add up to the microphone signal",
     "When saving of source contributions is enabled, for every source/microphone pair the recorded contribution is that source alone convolved with its path, the contributions of all sources sum to the recorded microphone signal at every sample, and enabling the option changes no other signal.",
     ["inputs", "configurations"], "all sources (free, controllable), microphones, responses, start modes and sizes",
     "Tests check one source/mic combination with fixed signals.",
     [SIM], [("contribution signals", SIM + " Propagator.propagate, Propagator.prepare")], ["recorded <source>~<mic> signals"])
prop("C07", "Source start mode: silence before time zero, or a full buffer of pre-roll",
     "Without starting sources before zero the simulation behaves as if every signal was zero before time zero. With it, free sources have played buffer-size minus one samples when time zero is reached, and microphone signals contain the response to them from the first sample; all buffers are consistent with that history.",
     ["inputs", "configurations"], "all signals, responses, buffer sizes, both start modes, with and without processor",
     "Tests never inspect buffer history before time zero, nor compare start modes.",
     [SIM], [("initial buffers", SIM + " Propagator.prepare")], ["recorded signals, buffers seen by the processor in its first calls"])
prop("C08", "Sources produce one consistent stream however it is split into requests",
     "For each signal generator, asking for n samples returns an array of shape (channels, n), and any split of a request into consecutive smaller requests yields the same stream, which is the documented signal of that generator (sinusoid of given frequency and phase, pulse train of given period, counter, repeated code sequence, ...). Generators with a random number generator depend on it only, so equal generators give equal streams.",
     ["inputs", "histories"], "all request splits, all generator parameters (frequencies, amplitudes, periods, phases, channel counts)",
     "Tests try a few block sizes for some sources; state carried between calls must be right for every split.",
     [SRC], [("state between calls", SRC + " get_samples of every source")], ["get_samples() results"])
prop("C09", "Playback of a given sequence follows its end mode",
     "A source that plays a given sequence returns amplitude times the given values, in order and per channel, and at the end of the sequence does what its end mode says: repeat from the start, continue with zeros, or raise - and raises only if samples beyond the end are requested. Changing amplitude or repetition never skips, repeats or reorders samples.",
     ["inputs", "histories"], "all sequences, amplitudes, end modes and request splits including ones that end exactly at, before or past the end",
     "Tests play whole sequences with lucky block sizes; requests that end exactly at, or wrap several times around, the end are not tried.",
     [SRC], [("end handling", SRC + " Sequence.get_samples")], ["get_samples() results and exceptions"])
prop("C10", "Paths of moving arrays follow the trajectory, all other paths stay fixed",
     "Paths between a pair with a moving array are recomputed from the current positions at exactly the multiples of the array update frequency and held in between; the signal at a microphone uses at each sample the paths in force at that step; paths between static arrays and paths set by the user are never changed. The recorded trajectory of positions matches where the trajectory says the array was.",
     ["inputs", "configurations", "histories"], "all trajectories, update frequencies, sizes and signals; responses are an arbitrary function of the positions",
     "Tests only check that moving simulations run and a static-vs-moving special case; timing of updates over time is not observable in them.",
     [SIM, ARR], [("position and path update", ARR + " ArrayCollection.update, update_path"), ("path in use", SIM + " Propagator.propagate"), ("recorded positions", ARR + " ArrayCollection.update")],
     ["recorded signals, array positions and paths during a run"])
prop("C11", "Linear trajectories visit their points in order at the promised speed",
     "A linear trajectory is at its i-th point at the i-th segment time, moves along straight segments with the requested speed or equal time per segment, repeats or stops as asked, and gives the same position for a time no matter which times were asked before.",
     ["inputs", "histories"], "all points, speeds/period lengths, all times",
     "Tests plot or sample few instants.", [TRJ], [("segment times and interpolation", TRJ + " LinearTrajectory")], ["current_pos(t)"])
prop("C12", "Circular trajectories keep their annulus and their angular and radial periods",
     "A circular trajectory always lies in the horizontal plane of its center between its inner and outer radius, has period equal to the least common multiple of angular and radial period, advances its angle and moves its radius linearly between the inner and outer radius, and gives each array element its own trajectory shifted consistently.",
     ["inputs", "histories"], "all centers, radii, periods, start angles and times",
     "Tests sample few instants.", [TRJ], [("angle and radius", TRJ + " CircularTrajectory")], ["current_pos(t)"])
prop("C13", "Equally spaced region points lie in the region with the promised spacing",
     "For every region, the equally spaced points all satisfy the region's own membership test, neighbours have the requested spacing, the grid is symmetric around the region's center and no further point of the grid would fit; membership agrees with the region's geometric definition.",
     ["inputs", "configurations"], "all region sizes, centers and spacings",
     "Tests use a few sizes; floor/ceil/offset arithmetic fails at particular ratios only.",
     [REG, GEN], [("grids", REG + " equally_spaced_points"), ("membership", REG + " is_in_region")], ["equally_spaced_points(), is_in_region()"])
prop("C14", "Random region samples lie in the region and follow its measure",
     "Points sampled from a region always satisfy its membership test, the number of points is the number asked for, sampling maps the uniform random numbers to the region without bias (equal measure for equal probability) and depends only on the given generator; a combined region samples each part in proportion to its volume.",
     ["inputs"], "all region sizes/centers/rotations, all values of the random number generator",
     "Tests draw a few random points; extreme draws and bias are not visible.",
     [REG], [("sampling", REG + " sample_points")], ["sample_points()"])
prop("C15", "Array geometry generators place points where they say",
     "Point generators return the number of points asked for, on the requested curve, surface or grid (circle, rectangle, cuboid, sphere, line), with equal spacing along it, centred on the given position.",
     ["inputs", "configurations"], "all sizes, counts, offsets and centers",
     "Tests cover few sizes with fixed tolerances.", [GEN], [("generators", GEN)], ["returned positions"])
prop("C16", "Coordinate conversions invert each other and keep length and direction",
     "Converting cartesian points to polar/spherical coordinates and back gives the same points, the radius is the euclidean length, angles are in their documented range; rotations keep lengths and relative angles.",
     ["inputs"], "all points including axes, poles and the origin",
     "Tests draw random points and miss axes and quadrant boundaries.", [GEN], [("conversion", "coordinate conversion helpers")], ["returned coordinates"])
prop("C17", "Phase counters report each phase for exactly its length",
     "A phase counter given phase lengths is in the i-th phase for exactly that many samples, signals the first sample of each phase exactly once, reports the current phase by name, and ends as documented after the last phase; splitting progress into any steps makes no difference.",
     ["inputs", "histories"], "all phase lengths, all progress splits",
     "No tests.", ["src/aspsim/counter.py"], [("phase bookkeeping", "src/aspsim/counter.py PhaseCounter")], ["phase queries after progress"])
prop("C18", "Event counters fire exactly at their offset plus multiples of their frequency",
     "An event registered with a frequency and offset fires exactly at the sample counts offset + k*frequency, once each, for any way the progress is split into blocks as documented; events registered together do not influence each other.",
     ["inputs", "histories"], "all frequencies, offsets and progress histories",
     "No tests.", ["src/aspsim/counter.py"], [("event bookkeeping", "src/aspsim/counter.py EventCounter")], ["event queries after progress"])
prop("C19", "Stored paths are reused exactly when nothing that determines them differs",
     "When loading from a session folder, stored impulse responses are used exactly if the stored configuration and all arrays equal the current ones in everything that determines the responses, and are recomputed otherwise; what is loaded equals what was stored.",
     ["configurations", "histories"], "all differences in any configuration value or array property",
     "Tests save and load identical setups.", [SES, CU], [("comparison", CU + " equal_audio; " + SES), ("load/save", SES)], ["paths of a simulator created from a stored session"])
prop("C20", "Path setup: every pair gets a response of its type, shape and alignment",
     "After setup every source/microphone pair has a path of shape (source channels, mic channels, length) according to its type (none, identity, random, direct, image-source, user supplied, modified), user paths always win, responses are truncated or zero-padded to the configured length and computed in blocks without mixing microphones.",
     ["inputs", "configurations"], "all combinations of path types, channel counts, response lengths and block sizes; image-source responses are an arbitrary function of the positions",
     "Tests check some types on fixed arrays.", [SIM, ARR, RIR], [("path creation", ARR + " ArrayCollection.setup_ir"), ("room responses", RIR)], ["paths of the created simulator"])
prop("C21", "Array collections keep arrays unique, ordered and in the right role",
     "Adding an array makes exactly that array available under its name and role (microphone, controllable source, free source), names are unique, counts and positions agree, groups refer to the elements given, and enumerating pairs or arrays yields every element exactly once in a stable order independent of insertion order of other roles.",
     ["histories", "configurations"], "all insertion sequences of arrays of the three roles, groups and dynamic flags",
     "Tests add fixed arrays.", [ARR], [("bookkeeping", ARR + " ArrayCollection")], ["collection queries"])
prop("C22", "File and folder names: unique, index-aware, never touching other series",
     "A proposed unique name or folder never equals an existing one, index parsing reads back the index written, and finding or removing earlier files of a series returns exactly the files of that series with a smaller index.",
     ["inputs", "histories"], "all folder contents over a small alphabet of names, all indices",
     "Tests use one folder state.", [FU], [("naming", FU)], ["returned names and file lists"])
prop("C23", "Nested attribute and item names select exactly the named value",
     "A property path made of attribute names, integer indices and quoted keys selects exactly the value that chained attribute access and indexing selects, at the time it is evaluated.",
     ["inputs"], "all paths of bounded depth over names, indices (incl. negative) and keys",
     "No tests.", [DC], [("parsing", DC + " attritemgetter")], ["value returned"])
prop("C24", "Derived diagnostics equal their definition on the recorded signal",
     "Power, power ratio, state power/summary/comparison and sound-field power diagnostics equal their defining formula applied to the signals or states, for every sample and regardless of chunk, buffer and block sizes; preprocessing steps are applied in order to what was recorded.",
     ["inputs", "configurations"], "all signals, smoothing lengths, channel selections and sizes",
     "No tests for the derived values.", [DD, "src/aspsim/diagnostics/preprocessing.py"], [("formulas", DD)], ["get_output() of the diagnostics"])
prop("C25", "Block partitions cover every sample exactly once within limits",
     "The helpers that cut a range of samples into blocks return consecutive, non-empty blocks that cover the range exactly once, never exceed the block size or the buffer end, and agree with the position in the buffer at which the caller continues.",
     ["inputs"], "all sample counts, start indices, block and buffer sizes",
     "No tests.", [PROC, UTIL], [("partition", "calc_block_sizes and relatives")], ["returned block sizes"])
prop("C26", "Simulators created from one setup are independent",
     "Two simulators created from the same setup do not influence each other: running one, changing its configuration, arrays or diagnostics, or changing the setup afterwards leaves the signals of the other as if it had been created alone.",
     ["histories", "configurations"], "all orders of creating, running and modifying; all signals",
     "Tests create one simulator per setup or compare one scenario.", [SIM], [("copies made at creation", SIM + " SimulatorSetup.create_simulator")], ["recorded signals of each simulator"])
prop("C27", "State diagnostics sample the state at their own times, once each",
     "A state diagnostic with save frequency f holds exactly one value per multiple of f within the simulation, in order and taken at that time, and reports the matching time indices; instantaneous diagnostics hold the value of the latest save point, unaffected by later changes of the live object.",
     ["configurations", "histories"], "all save frequencies, lengths, block/chunk/buffer sizes",
     "Tests of state diagnostics are not passing at this commit, so nothing covers them.", [DC, DD], [("due saves", DC + " IntervalCounter.from_frequency"), ("storing", DD + " RecordState.save")], ["get_output() and time indices"])
prop("C28", "Frequency responses are the DFT of the paths in the requested layout",
     "Frequency-domain paths requested for a number of bins equal the discrete Fourier transform of the time-domain paths for every pair, in the documented axis order, on the non-negative (or all) frequencies asked for.",
     ["inputs", "configurations"], "all paths, channel counts and transform lengths",
     "No tests.", [ARR], [("transform", ARR + " get_freq_paths")], ["returned arrays"])

prop("C29", "Figures show the recorded values at their time, channel and position",
     "For every export point a plot diagnostic draws exactly one figure: signals and states are one curve per channel and processor over the time indices of exactly the values recorded before the export point (preprocessed); impulse responses are one row of panels per processor with one panel per response and one curve per set; matrices are shown as they are. A sound field image shows for each microphone position the value measured there, columns by rising x, largest y on top, with edges at the outer positions, whatever the order of the microphones. Legends name each label once, at its curve.",
     ["inputs", "configurations", "histories"], "all recorded values, export points, intervals, channel/set/response counts, orders and spacings of the microphone grid, chunk and block sizes",
     "Plots are never compared with the data they show; a transposed image or shifted curve looks plausible.",
     [DP, "src/aspsim/diagnostics/soundfieldplot.py"], [("curves over time", DP + " function_of_time_plot, plot_multiple_channels"), ("panels of responses", DP + " plot_ir"), ("grid to image", "src/aspsim/diagnostics/soundfieldplot.py sort_for_imshow, sf_plot")],
     ["what is drawn (data given to matplotlib) and where it is saved"])
prop("C30", "Audio files hold what was recorded and are read at the desired rate",
     "For every export point an audio export writes one file per processor, with one column per channel, at the sample rate of the simulation, holding exactly the (preprocessed) values recorded before the export point scaled so that the largest magnitude is one and faded in and out over 0.2 s or a tenth of the length, whichever is shorter, silence staying silence; the recording itself is unchanged. Loading an audio file gives its channels in order as (channels, samples), the first ones if a number is asked for, resampled exactly if another sample rate is asked for.",
     ["inputs", "configurations"], "all recorded values, recording intervals, export points, lengths and channel counts; all file contents with 1-3 channels at several rate ratios",
     "No tests.", [DP, SRC], [("export", DP + " create_audio_files"), ("import", SRC + " load_audio_file")], ["written audio data, returned array"])

prop("C31", "Differential cardioid microphones hear the front and cancel the rear",
     "The differential cardioid signal of every microphone pair is its own main signal through the first and its secondary signal through the second differential filter, without delay and as long as the input. A plane wave from the main microphone's side is heard exactly as at the main microphone at every design frequency above zero (multiples of samplerate over 2 order + 1), one from the other side is cancelled; the constant part is removed, and design frequencies up to the lower limit, if one is given, are attenuated by the ramp.",
     ["inputs", "configurations"], "all signals, all plane wave amplitudes at all design frequencies, filter orders, microphone distances, sample rates, limits from lists",
     "The tests compare with one other implementation for one approximate plane wave (and fail at this commit).",
     ["src/aspsim/room/directional.py"], [("differential filters", "src/aspsim/room/directional.py differential_cardioid_microphone")], ["returned signal"])

prop("C32", "Spectrum and eigenvalue diagnostics analyse exactly the requested data",
     "An eigenvalue diagnostic holds at every save time the eigenvalues of the hermitian matrix its processor had at that time, in ascending order (all, those in the given index range over time; their magnitudes if asked for), and refuses matrices that are not hermitian. A power spectrum diagnostic holds the mean over the selected channels of the Welch power spectrum, with the given segment length at the simulation's sample rate, of exactly the samples in its range, independent of chunk, buffer and block sizes, and is drawn once the range has ended.",
     ["inputs", "configurations", "histories"], "all matrices, save times and index ranges; all signals, sample ranges and block/chunk/buffer sizes in range",
     "No tests.", ["src/aspsim/diagnostics/diagnosticscollection.py", DP], [("eigenvalues", "src/aspsim/diagnostics/diagnosticscollection.py Eigenvalues, EigenvaluesOverTime"), ("spectrum", "src/aspsim/diagnostics/diagnosticscollection.py SignalPowerSpectrum")], ["figure data, recorded diagnostics"])

prop("C33", "Figure and lists of a simulation's setup show every array where it is",
     "Creating a simulator with a figure folder saves one overview figure in which every array is drawn exactly once under its name: static arrays at all their positions, moving ones along their trajectory (the corners reached during the simulation; the whole round of a circle), regions as outlines of their size at their place, and the walls exactly if some path comes from the room. The written lists hold the positions and number of elements of every array and the type of every path. Without plotting nothing is saved.",
     ["inputs", "configurations"], "all positions, region sizes and places, room sizes and centres; all kinds of arrays, orders of insertion, path types; all simulation lengths in range against segment times",
     "The tests plot without looking at the figure.", [ARR, REG, TRJ], [("figure", ARR + " ArrayCollection.plot, Array.plot, RegionArray.plot"), ("outlines", REG + " Region.plot"), ("lists", ARR + " save_metadata")], ["what is drawn and saved"])

# what the checks decide, precisely (final wording)
REFINE = {
"C01": ("Every microphone signal is the multichannel convolution of all sources",
 "In a simulation with static arrays, the signal recorded at every microphone equals, for every sample of the run, the sum over all free and controllable sources and all their channels of the source signal convolved with the impulse response of that source/microphone pair. Nothing is lost, delayed or counted twice at block, chunk or buffer boundaries, and recorded source signals equal what the source (or the processor) produced."),
"C03": ("Signal recordings hold every requested sample exactly once, at its place",
 "A signal recording over any set of non-overlapping increasing intervals holds, for each requested sample index, exactly the value the signal had at that index, for the selected channels in the selected order, and is nan at all other indices. This does not depend on where chunk, buffer or processing block boundaries fall; at any time, any diagnostic is handed each due index exactly once, in order, from the right place of the buffer and only after it is finished."),
"C04": ("One export file per export point, holding exactly what was recorded before it",
 "For every export point k up to the end of the simulation (multiples of the export frequency, or the given list) each exporting diagnostic writes exactly one file <name>_<k>, keyed by the diagnostic's name, that holds precisely the values recorded for sample indices before k (an instantaneous diagnostic: its value at save point k); no other files appear. With keep-only-last set, only the newest file of that diagnostic remains and the files of all other diagnostics are untouched."),
"C05": ("Processors see every block once, and their output is played one block later",
 "A processor with block size B is prepared once and then called once per block of B samples, in order, until the end of the run; in its j-th call (from 0) the B samples before the current index of every microphone and source signal are exactly samples jB to (j+1)B-1. What it writes in that call is played as samples (j+1)B to (j+2)B-1 of the controllable source and reaches the microphones through the paths."),
"C06": ("Source contributions add up to the microphone signal",
 "When saving of source contributions is enabled, the recorded contribution of every source/microphone pair is that source alone convolved with its path, and for static and moving arrays the contributions of all sources sum to the recorded microphone signal at every sample."),
"C07": ("Source start mode: silence before time zero, or a full buffer of pre-roll",
 "Without starting sources before zero, the buffers of all signals are zero before time zero and the run starts with the first sample of each free source. With it, free sources have already played buffer-size minus one samples at time zero, microphones hold and continue the response to exactly that history (also in source contributions), controllable sources are silent, and sources then advance one sample per step; the sources of the setup itself are not consumed."),
"C08": ("Sources produce one consistent stream however it is split into requests",
 "For each signal source, asking for n samples returns an array of shape (channels, n), and any split into consecutive requests gives the same stream as one request. That stream is the documented one: sinusoid(s) of the given power, frequency and (random) phase, pulse every period starting at the delay, counter from its start number, noise of the given power, maximum length sequence continued from its start state and repeated, different codes per channel, noise of its own per channel through the band-pass filter or the recursion that has the given autocorrelation."),
"C09": ("Playback of a given sequence follows its end mode",
 "A sequence source returns amplitude factor times the given values, per channel and in order, and at the end does what its end mode says: repeat from the start, continue with zeros, or raise. It raises only if samples past the end are requested, and the given sequence is never modified."),
"C10": ("Paths of moving arrays follow the trajectory, all other paths stay fixed",
 "Paths between a pair with a moving array are recomputed from the current positions at exactly the multiples of the array update frequency, until the end of the run, and held in between; every microphone (and contribution) sample uses the paths in force at that step. Paths between static arrays and paths set by the user never change, static arrays do not move, and the recorded positions and times of a moving array match its trajectory."),
"C11": ("Linear trajectories visit their points in order at the promised speed",
 "A linear trajectory starts at its first point at sample 0, runs along the straight segments between the given points in order and back to the first point, at constant speed or with equal time per segment as chosen, and repeats with the given period. The position depends only on the time asked for, not on earlier queries."),
"C12": ("Circular trajectories keep their angular and radial periods",
 "A circular trajectory stays at the height of its center; it starts at its outer radius and start angle, its angle advances linearly once per angular period, and its radius moves linearly from outer to inner and back to outer radius once per radial period, for all times. A trajectory collection has one row per trajectory, each following its own trajectory; plotting a circular trajectory marks points on its curve."),
"C13": ("Equally spaced region points lie in the region with the promised spacing",
 "For every region (cuboid, rectangle, disc, ball, cylinder, combinations), membership gives one answer per point and agrees with the region's geometry (lower-dimensional regions in 3D: only points on their plane; a union: inside some part). The equally spaced points lie inside the region, in its plane, each once, on a grid of the requested spacing that is symmetric around the center and misses no grid point that fits; a union has the grids and the summed volume of its parts."),
"C14": ("Random region samples lie in the region and follow its measure",
 "Sampling n points of a region gives n points inside it, made only from the given generator's uniform draws, each coordinate from its own draw: sides uniform, squared disc radius and angle uniform, cylinder height uniform, ball samples uniform points of the cube that fell into the ball (only points outside it are rejected). A combined region samples each part in proportion to its volume."),
"C15": ("Array geometry generators place points where they say",
 "The point generators return exactly the number of points asked for, in the place and spacing they promise: circles and stacked or concentric circles with equally spaced angles and radii in the given range, points along a rectangle's sides with the given offset and alternating or extra sides, stacked rectangles, grids and cell centers of rectangles and cuboids, four-level arrays, sunflower discs with their offset angle, random discs within limits."),
"C16": ("Coordinate conversions invert each other and keep length and direction",
 "Converting cartesian points to polar or spherical coordinates gives the distance from the origin (never negative), the angle from x towards y in (-pi, pi] and the zenith from z in [0, pi]; converting back gives the same points, including on axes, at poles and at the origin. Converting angles and radius to cartesian gives the point in that direction at that distance, and inputs are not modified."),
"C17": ("Phase counters report each phase for exactly its length",
 "A phase counter reports, at every sample, the phase whose interval contains it: phases follow each other in order, each for exactly its length, zero-length phases are skipped, a negative or infinite length lasts forever, and after the last finite phase there is no phase. Queries by name agree, the first sample of each phase is flagged exactly once, the start index of each phase is reported, and the given definition is not modified."),
"C18": ("Event counters fire exactly at their offset plus multiples of their frequency",
 "After each progress step of an event counter, exactly those registered events are reported whose frequency divides the number of samples progressed minus their offset, each once and in the order of registration. Events do not influence each other, also when registered later, and the counter counts the samples progressed."),
"C19": ("Stored paths are reused exactly when nothing that determines them differs",
 "With a session folder, stored impulse responses are used exactly if a stored session agrees with the current setup in everything that determines paths (arrays, positions, path types, user paths, room and path configuration); otherwise they are recomputed and stored. Either way the simulation uses the current arrays, positions, sources, trajectories, groups and settings, its paths equal those the setup itself determines (random paths: the stored ones), and loading a session returns what was stored."),
"C20": ("Path setup: every pair gets a response of its type, shape and alignment",
 "After setup every source/microphone pair has a path of shape (source elements, mic elements, length) according to its own type: none is zero, direct links equal element numbers only, random has the configured length with distinct draws, image-source responses come from the configured room and are placed, cut and zero-padded to the configured length without mixing elements, and user paths are used unchanged. A highpass cutoff filters generated responses with the second order Butterworth highpass without delay and without changing their length, and the notes kept for an image-source pair are its own: the largest share (in dB) any response lost, minimum, median, mean and maximum of the measured reverberation times, and the room parameters used. Wrong shapes or unknown arrays are refused and change nothing, and the setup itself is not modified by creating simulators."),
"C21": ("Array collections keep arrays unique, ordered and in the right role",
 "Adding an array makes it available under its name and in its role (microphone, controllable or free source) exactly once and in insertion order; a second array of the same name is refused. All source/microphone pairs are enumerated once, with one path and type each, independent of the insertion order; groups and region segments partition the elements with the positions given, and invalid positions, directivities or source channel counts are refused."),
"C22": ("File and folder names: unique, index-aware, never touching other series",
 "Proposed unique file and folder names do not exist yet, differ from each other, use prefix, optional time and the lowest free numbers, and reading the index of a numbered name returns the number written. The highest numbered file of a series is one that exists with no higher number in that series, and finding or deleting earlier exports returns exactly the files of that very series with a smaller index, optionally complaining about later ones."),
"C23": ("Nested attribute and item names select exactly the named value",
 "A name made of attributes, [integer] indices (positive or negative) and ['key'] accesses selects exactly the value that the same chain of attribute and item accesses selects on the object it is applied to, at the time it is applied, without changing the object. Keys may contain any characters but apostrophes, including dots and brackets; a missing end apostrophe and missing attributes are errors."),
"C24": ("Derived diagnostics equal their definition on the recorded signals and states",
 "Signal power (mean square over the selected channels), signal power ratio (ratio of both powers, each smoothed by a causal moving average), sound field power (mean square per microphone over the requested samples), signal summary, state power, state summary, state comparison and filter difference equal their defining formula for every sample, independent of chunk, buffer and block sizes. Preprocessing functions (moving average, clipping) are applied in the order given to exactly the values before the export point, and each of these diagnostics is exported at its own export points."),
"C25": ("Block partitions cover every sample exactly once within limits",
 "The block size helpers return non-empty consecutive blocks that add up to the requested number of samples, never cross a block or buffer boundary and fill up to it in between. The helpers that process up to an index return consecutive blocks of exactly the block size that end at that index and start at the earliest possible point not before the given start."),
"C26": ("Simulators created from one setup are independent",
 "Simulators created from the same setup do not influence each other: running one, changing its configuration, paths, sources, diagnostics or positions, changing the setup (or arrays the user passed to it) afterwards, or creating and running further simulators leaves signals, arrays, trajectories and diagnostics of the others as if each had been created alone."),
"C27": ("State diagnostics sample the state at their own times, once each",
 "A state diagnostic with save frequency f holds exactly one value per multiple k of f within the simulation, in order, with time index k-1; if f is a multiple of the block size (of at least 2 samples) it is the state (scalar, vector or matrix) after exactly k/blocksize calls, and exports hold the values before the export point. Instantaneous diagnostics hold a deep copy of the value at the latest save point, unaffected by later changes of the live object."),
"C28": ("Frequency responses are the DFT of the paths in the requested layout",
 "Frequency-domain paths for an even transform length n hold, for every source/microphone pair, the discrete Fourier transform of the time-domain path (truncated or zero-padded to n) at the n/2+1 non-negative bins, as (frequency, microphone, source). The returned frequencies are k times samplerate over n, and the time-domain paths are unchanged."),
}
for p in P:
    if p["id"] in REFINE:
        p["title"], p["statement"] = REFINE[p["id"]]
        assert len(p["title"]) <= 80

NA = {}
TECH = "symbolic execution of the real Python source (z3, all paths within stated bounds), counterexamples replayed on the unmodified code"
NOTES = {}
ids = [p["id"] for p in P]
have = [i for i in ids if (ROOT / "harness" / (i.lower() + ".py")).exists()]


def write():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for i in have:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=TECH,
                           level="model_checking", level_note=NOTES.get(i, "Bounded: exhaustive over all symbolic values on every path within the case bounds written in the evidence file; floating point is modelled as exact real arithmetic; counterexamples are replayed with real floats.")))
    na = [dict(property=i, reason=NA.get(i, "no harness yet")) for i in ids if i not in have]
    with open(ROOT / "MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), f, indent=1)


write()
