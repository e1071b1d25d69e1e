"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = "bounded symbolic execution of the real Python/PyTorch code, obligations decided by z3 (SMT)"


def P(id, title, statement, over, qtext, why, files, mech, observe, note, tech=SYM, level="other"):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, note=note, tech=tech, level=level)


ISM = "src/torchrir/sim/ism/"
PROPS = [
P("C01", "Static RIR equals the image-source sum",
  "For every room, source, microphone and set of wall coefficients, the static impulse response is the sum, over exactly the mirror images selected by the maximum order (|nx|+|ny|+|nz| <= order) or by the per-axis image counts, of the product of the coefficients of the walls hit divided by the distance, placed at the distance divided by the speed of sound as a windowed-sinc pulse. Taps falling outside the requested length are dropped and nothing else is added or lost.",
  ["inputs", "configurations"], "all positions, room sizes, wall coefficients; image sets up to the stated order",
  "The tests compare a handful of fixed rooms, mostly shapes and finiteness; they cannot sweep positions and unequal wall coefficients, where wall-assignment mistakes show.",
  [ISM + "api.py", ISM + "images.py", ISM + "contributions.py", ISM + "accumulate.py", ISM + "helpers.py"],
  [("image index set, positions and wall coefficient powers", ISM + "images.py"), ("delay and attenuation of each image", ISM + "contributions.py:_compute_image_contributions_batch"), ("masked scatter of fractional-delay taps", ISM + "accumulate.py:_accumulate_rir_batch_impl")],
  ["torchrir.sim.simulate_rir"],
  "2-D and 3-D, orders up to 3 (quick) / 4-5 (thorough), short kernels (1, 3, 5 or 7 taps), short responses; real arithmetic; longer kernels only change constants."),
P("C02", "Chunk sizes never change a simulated response",
  "Splitting the work into image chunks or accumulation chunks of any size gives the same static and dynamic responses as processing everything at once. No image is lost, duplicated or attributed to another source, microphone or time step at a chunk boundary.",
  ["inputs", "configurations"], "all chunk sizes from 1 to beyond the image count; all positions and coefficients",
  "Chunk sizes default to thousands, so tests with few images run a single chunk; boundaries need chunk sizes that divide, nearly divide and exceed the image count.",
  [ISM + "api.py", ISM + "accumulate.py"],
  [("image chunk loop", ISM + "api.py:simulate_rir"), ("accumulate chunk loop with early continue", ISM + "accumulate.py:_accumulate_rir_batch_impl")],
  ["torchrir.sim.simulate_rir", "torchrir.sim.simulate_dynamic_rir"],
  "every pair of chunk sizes in the stated list, 2-D order <= 3, several sources and microphones, with early images entirely outside the response."),
P("C03", "A dynamic response at step t equals the static response there",
  "Every time step of a dynamic simulation equals the static simulation with source and microphone placed where the trajectories are at that step, with the same room, image set, directivity, orientation and configuration. Moving only sources, only microphones or both makes no difference to this.",
  ["inputs", "histories", "configurations"], "all trajectories (positions are free at every step), several sources/microphones, all directivity patterns",
  "Static and dynamic paths are separate code; tests compare them at one constant trajectory.",
  [ISM + "api.py", ISM + "contributions.py", ISM + "prepare.py"],
  [("time-batched contributions", ISM + "contributions.py:_compute_image_contributions_time_batch"), ("flattening of (time, source) into rows", ISM + "api.py:simulate_dynamic_rir")],
  ["torchrir.sim.simulate_dynamic_rir", "torchrir.sim.simulate_rir"],
  "T<=3 free positions per step, up to 2x2 entities, orders <= 2, each directivity pattern."),
P("C04", "Sources and microphones do not influence each other",
  "The response for one source and one microphone is the same whether simulated alone or together with any number of others, and comes out at its own index [source, microphone]. Permuting the sources or microphones permutes the responses, including with per-entity orientations.",
  ["inputs"], "all positions and orientations; several sources and microphones",
  "Cross-talk between rows of the flattened scatter needs late arrivals next to early ones in another row; tests use one pair or only check shapes.",
  [ISM + "accumulate.py", ISM + "contributions.py", ISM + "api.py"],
  [("row offsets in the flattened scatter and the range mask", ISM + "accumulate.py:_accumulate_rir_batch_impl"), ("broadcasting of orientations", ISM + "contributions.py")],
  ["torchrir.sim.simulate_rir"], "up to 3 sources x 3 microphones, orders <= 2, truncated responses."),
P("C05", "Physical symmetries of the room hold",
  "Exchanging an omnidirectional source with an omnidirectional microphone leaves the response unchanged; mirroring the scene in a wall pair while swapping the two wall coefficients leaves it unchanged; renaming the axes consistently leaves it unchanged. This holds for every room, position, coefficient set and order.",
  ["inputs", "configurations"], "all positions and coefficients in the room, both dimensions",
  "Symmetric rooms with equal coefficients hide any asymmetry; tests use beta equal on all walls.",
  [ISM + "images.py", ISM + "contributions.py"],
  [("image positions and coefficient powers", ISM + "images.py")],
  ["torchrir.sim.simulate_rir"], "2-D orders <= 3 and 3-D orders <= 2; relations between two runs of the real code, no reference model."),
P("C06", "Responses are finite and causal for every valid placement",
  "For every placement inside the room, including source and microphone at the same point or on a wall, and for every directivity pattern with a unit orientation, the response contains no NaN or infinity. No energy arrives before the direct path minus the half-width of the interpolation kernel.",
  ["inputs", "configurations"], "all positions in the closed room including coincident ones, all patterns",
  "Coincidence is a measure-zero input no random test hits; each division has to be shown non-zero on the whole domain.",
  [ISM + "contributions.py", ISM + "helpers.py", "src/torchrir/util/orientation.py"],
  [("distance clamp", ISM + "contributions.py"), ("normalisation guard", "src/torchrir/util/orientation.py:normalize_orientation"), ("cosine of incidence", ISM + "helpers.py:_cos_between")],
  ["torchrir.sim.simulate_rir"], "finiteness: every division and root in every output term is shown defined by the solver."),
P("C07", "Directivity gains follow the named pattern and the orientation",
  "Each image is weighted by the source pattern at the angle between the source's orientation and the direction to the microphone, and by the microphone pattern at the angle of arrival. The weight depends only on the orientation's direction: angles, (azimuth, elevation) pairs and vectors of any length describing the same direction give the same response, per-entity orientations apply to their own entity, aliases mean the same pattern, and unknown patterns or a missing orientation are rejected.",
  ["inputs", "configurations"], "all orientations, positions, patterns and aliases, 2-D and 3-D",
  "Tests look at one or two orientations and patterns; sign or axis mistakes show only at generic directions.",
  ["src/torchrir/sim/directivity.py", "src/torchrir/util/orientation.py", ISM + "contributions.py", ISM + "helpers.py"],
  [("pattern table", "src/torchrir/sim/directivity.py:directivity_gain"), ("angle to vector", "src/torchrir/util/orientation.py:orientation_to_unit"), ("source/mic cosine signs", ISM + "contributions.py")],
  ["torchrir.sim.simulate_rir", "torchrir.sim.directivity_gain"], "order <= 1 images, all patterns on both sides."),
P("C09", "Table-based sinc interpolation tracks the exact kernel",
  "With the lookup table enabled every response is within the linear-interpolation error of the response computed with the exact windowed sinc, whatever the fractional delay, table granularity, kernel length and data type, and table or window caches shared between calls never change a later result.",
  ["inputs", "configurations", "histories"], "all fractional delays, granularities and kernel lengths in the stated lists; sequences of calls with different settings",
  "Tests compare one granularity at one position; a table shifted by one entry is hardly visible there and cache reuse across settings is not exercised.",
  [ISM + "accumulate.py"],
  [("table construction and indexing", ISM + "accumulate.py:_get_sinc_lut"), ("module-level caches", ISM + "accumulate.py")],
  ["torchrir.sim.simulate_rir"], "kernel lengths 1-9, granularities 1-20; the interpolated tap is proved to be the linear interpolation of sinc between neighbouring grid points bracketing the exact argument."),
P("C10", "Configuration resolution: explicit arguments win, conflicts are refused",
  "The response length is the requested sample count, or otherwise the duration times the sampling rate rounded up; explicit arguments take precedence over configuration values, missing values come from the configuration, and invalid values are rejected before simulating. Simulating a scene through the simulator object gives exactly what the corresponding function call gives (including the orientations carried by the scene), and contradictory order or duration between simulator and configuration raise an error.",
  ["inputs", "configurations"], "all combinations of given/missing/invalid arguments with symbolic values",
  "The space of argument combinations is a product no example list covers.",
  [ISM + "validate.py", "src/torchrir/sim/simulators.py", "src/torchrir/config.py"],
  [("config resolution", ISM + "validate.py:_resolve_config"), ("conflict check", "src/torchrir/sim/simulators.py:_ensure_no_conflict"), ("config validation", "src/torchrir/config.py:SimulationConfig.validate")],
  ["torchrir.sim.simulate_rir", "torchrir.sim.ISMSimulator", "torchrir.config.SimulationConfig"], "numbers symbolic, presence of each argument enumerated by forking."),
P("C11", "The diffuse tail only replaces what lies after its start time",
  "Requesting a diffuse tail leaves every sample before the mixing time untouched and adds nothing when the mixing time is not before the end of the response or not positive. After it the response decays exponentially with the room's reverberation time, is scaled to the level at the junction, is finite, and is reproducible for equal seeds.",
  ["inputs", "configurations"], "all mixing times, durations, reverberation times, early responses; random numbers are free variables",
  "Tests look at one seed and one mixing time; boundary indices and the decay law need all of them.",
  [ISM + "diffuse.py", ISM + "api.py"],
  [("tail construction", ISM + "diffuse.py:_apply_diffuse_tail")],
  ["torchrir.sim.simulate_rir"], "random numbers as free variables, index by forking."),
P("C12", "The response high-pass filter is optional, linear and per-channel",
  "With the filter disabled the response is untouched; with it enabled every source, microphone and time-step row is filtered by the same zero-phase linear filter along time, independently of the other rows, in the response's own data type and shape. Cut-offs outside (0, fs/2) and unknown filter types are rejected.",
  ["inputs", "configurations"], "all response values; all cut-off frequencies; batch shapes up to the bound",
  "Tests filter one random response; filtering along a wrong axis or mixing rows needs structure in every row.",
  [ISM + "hpf.py"], [("filter design and application", ISM + "hpf.py:apply_rir_hpf")],
  ["torchrir.sim.simulate_rir"], "the SciPy filter kernel itself is represented by its exact linear operator, measured on unit impulses on every run."),
P("C13", "Rooms, entities and scenes accept exactly the valid inputs",
  "A room, source, microphone array or scene is accepted if and only if its sizes are positive and finite, its dimension is 2 or 3, its coefficients number two per axis and lie in [0, 1], rate, speed and reverberation time are positive, coefficients and reverberation time are not both given, positions and orientations are finite and shaped for the dimension, and trajectories match entities, dimension and each other. Accepted values are stored unchanged and everything else raises an error.",
  ["inputs", "configurations"], "all numeric values (boundary values included) and all shapes up to the bound",
  "Acceptance is a boundary property: tests try one valid and one invalid value per field.",
  ["src/torchrir/models/room.py", "src/torchrir/models/scene.py", "src/torchrir/util/tensor.py"],
  [("constructor validation", "src/torchrir/models/room.py:Room.__post_init__"), ("scene validation", "src/torchrir/models/scene.py:_validate_traj")],
  ["torchrir.models.Room", "torchrir.models.Source", "torchrir.models.StaticScene", "torchrir.models.DynamicScene"], "numbers symbolic, shapes enumerated by forking."),
P("C14", "Reverberation time and wall coefficients follow Sabine's relation",
  "Converting a reverberation time to a wall coefficient and back reproduces it whenever the absorption is physically reachable, the coefficient always lies in [0, 1], grows with reverberation time and saturates instead of failing when the requested time is too short. Simulating with a reverberation time is the same as simulating with the converted coefficient on every wall, in 2-D and 3-D.",
  ["inputs"], "all room sizes, times and coefficients in the stated ranges",
  "Round trips are tested at single values; monotonicity and clamping are universally quantified.",
  ["src/torchrir/util/acoustics.py", ISM + "helpers.py"],
  [("Sabine conversion", "src/torchrir/util/acoustics.py"), ("room coefficient resolution", ISM + "helpers.py:_resolve_beta")],
  ["torchrir.util", "torchrir.sim.simulate_rir"], "non-linear real arithmetic over the conversion formulas."),
P("C15", "Image counts and decay times cover the requested response",
  "The number of images per axis derived from a duration is the smallest whole number whose extent covers the distance sound travels in it, for every room size and speed of sound. The time for a given attenuation is proportional to the reverberation time and to the attenuation in decibels.",
  ["inputs"], "all sizes, durations, speeds",
  "Rounding at exact multiples and per-axis mix-ups need arbitrary sizes.",
  ["src/torchrir/util/acoustics.py"], [("image counts and attenuation time", "src/torchrir/util/acoustics.py")],
  ["torchrir.util"], "linear/non-linear real arithmetic with ceilings."),
P("C16", "Whole numbers mean the same as the equal real numbers",
  "Passing room sizes, positions, centres, coefficients or reverberation times as Python integers (or integer tensors) gives the same rooms, conversions, geometries and clamped positions as passing the equal floating-point values. No fraction is silently truncated because another argument was written without a decimal point.",
  ["inputs", "configurations"], "all integer-valued arguments in the stated ranges, in every argument position",
  "Tests write floats nearly everywhere.",
  ["src/torchrir/models/room.py", "src/torchrir/util/acoustics.py", "src/torchrir/geometry/arrays.py", "src/torchrir/geometry/sampling.py"],
  [("dtype inference", "src/torchrir/util/tensor.py:as_tensor"), ("room constructor", "src/torchrir/models/room.py")],
  ["torchrir.models.Room", "torchrir.geometry", "torchrir.util"], "integer variables against the same call with real-typed equals."),
P("C17", "Static convolution is the exact sum of per-source convolutions",
  "Convolving source signals with a static response gives, for every microphone, exactly the sum over sources of the full linear convolution, of length signal plus response minus one, for 1-D, 2-D and 3-D responses and one or many signals. Shapes that cannot be matched are rejected.",
  ["inputs", "configurations"], "all signal and response values; lengths and channel counts up to the bound",
  "FFT-size and broadcasting mistakes depend on lengths and counts; tests use a few fixed shapes.",
  ["src/torchrir/signal/static.py", "src/torchrir/signal/internal.py"],
  [("FFT convolution and summation", "src/torchrir/signal/static.py")],
  ["torchrir.signal.convolve_rir"], "FFT is interpreted exactly (a spectrum is the vector it came from); lengths <= 6, up to 3x3."),
P("C18", "Hop-mode dynamic convolution switches responses on frame boundaries",
  "With a hop size, every input sample is convolved with the response of the frame it belongs to (sample n uses response floor(n/hop)) and the outputs are overlap-added, for every signal length, hop, number of responses, sources and microphones. With constant responses this is the static convolution wherever responses are available.",
  ["inputs", "configurations"], "all signal/response values; all small lengths, hops and counts including lengths not a multiple of the hop",
  "Remainder frames and counts off by one appear only for particular length/hop combinations.",
  ["src/torchrir/signal/dynamic.py"], [("hop convolution", "src/torchrir/signal/dynamic.py")],
  ["torchrir.signal.DynamicConvolver"], "lengths <= 9, hops 1-5, T <= 4."),
P("C19", "Trajectory-mode convolution partitions the signal by time",
  "With a trajectory, each input sample is convolved with the response in force at its time, given either by even division or by explicit timestamps, and contributes to exactly one response, so constant responses reproduce static convolution. Timestamps that do not start at zero, have the wrong count or lack a sampling rate are rejected.",
  ["inputs", "configurations"], "all signal/response values, all timestamps, all small lengths and step counts",
  "Segment boundaries depend on length and step count; timestamp rounding needs symbolic times.",
  ["src/torchrir/signal/dynamic.py"], [("segment boundaries and overlap-add", "src/torchrir/signal/dynamic.py")],
  ["torchrir.signal.DynamicConvolver"], "lengths <= 12, T <= 5, symbolic timestamps."),
P("C20", "Accelerator and CPU convolution paths agree",
  "The batched convolution path used on accelerator devices gives the same output as the reference path for every signal, response, number of time steps (including beyond one batch), segment length, source and microphone count.",
  ["inputs", "configurations"], "all values; step counts crossing the batch size",
  "There is no accelerator in the test environment, so the path is not run at all; it is encoded here with the device faked.",
  ["src/torchrir/signal/dynamic.py"], [("batched FFT path", "src/torchrir/signal/dynamic.py")],
  ["torchrir.signal.DynamicConvolver"], "T up to 10 (batch size 8), short responses."),
P("C21", "Signal and response shapes are normalised or refused",
  "Every accepted combination of signal and response layouts is interpreted the same way by all convolution routines: a missing source or microphone axis means one, outputs drop the microphone axis exactly when there is one microphone, and one signal may feed many sources. Combinations whose source counts or dimensions do not match raise an error instead of dropping or recycling data.",
  ["inputs", "configurations"], "all layouts and counts up to the bound",
  "Mismatched counts are the untested combinations, and silent truncation there loses audio.",
  ["src/torchrir/signal/internal.py", "src/torchrir/signal/static.py", "src/torchrir/signal/dynamic.py"],
  [("shape helpers", "src/torchrir/signal/internal.py")],
  ["torchrir.signal"], "dimensions 1-4, counts 1-3, values symbolic."),
P("C22", "Array generators place microphones as described",
  "Every generated microphone array is centred where requested with the requested spacing, radius or offsets: linear arrays are equally spaced along the requested direction, circular and spherical arrays lie at the requested radius (circular ones evenly, in the plane orthogonal to the requested normal), and all coordinates are finite for every admissible direction. Counts match the request and invalid counts, sizes or dimensions are rejected.",
  ["inputs", "configurations"], "all centres, spacings, radii, directions/normals (including axis-aligned ones), counts up to the bound",
  "Degenerate directions (parallel to a helper axis) are isolated points in the input space.",
  ["src/torchrir/geometry/arrays.py"], [("array constructors", "src/torchrir/geometry/arrays.py")],
  ["torchrir.geometry"], "counts <= 6; real arithmetic with square roots."),
P("C23", "Sampled positions stay inside the room and respect distances",
  "Randomly sampled positions keep the requested margin to every wall, fall within the requested height range where room and margins leave some of it, and keep the requested minimum distance to each given point, or an error is raised (when the margins leave no space or the allowed attempts are used up). Clamping returns positions inside the margins and leaves positions already inside unchanged.",
  ["inputs"], "all room sizes, margins, ranges and every possible random draw (free variables)",
  "Random sampling checks some draws; the guarantee is for all of them.",
  ["src/torchrir/geometry/sampling.py"], [("rejection sampling and clamping", "src/torchrir/geometry/sampling.py")],
  ["torchrir.geometry"], "random draws are free variables in the generator's range; up to 3 attempts."),
P("C24", "Linear trajectories run from start to end in equal steps",
  "A linear trajectory with n steps starts exactly at the start point, ends exactly at the end point, moves in equal increments, has n finite points, and stays within the box spanned by its end points; a single step is just the start.",
  ["inputs"], "all end points and step counts up to the bound",
  "Edge step counts (1, 2) and end-point exactness.",
  ["src/torchrir/geometry/trajectories.py"], [("interpolation", "src/torchrir/geometry/trajectories.py")],
  ["torchrir.geometry.linear_trajectory"], "steps 1-8, 2-D and 3-D."),
P("C25", "Archive extraction never writes outside its destination",
  "Extracting a dataset archive never creates or overwrites anything outside the destination directory, whatever member names and link targets the archive contains; an archive with an escaping member is refused with an error before anything is written. Ordinary members are extracted.",
  ["inputs", "histories"], "all member names over the stated alphabet (separators, dots, absolute paths), member kinds and link targets",
  "Traversal names are adversarial inputs; a test lists two or three spellings.",
  ["src/torchrir/datasets/_archive.py"], [("member checks", "src/torchrir/datasets/_archive.py")],
  ["torchrir.datasets (download=True)"], "names of up to four path components chosen symbolically; extraction replaced by a recorder in symbolic runs."),
P("C26", "A download either yields the verified complete file or an error",
  "After any sequence of connection failures, short reads, interrupted transfers or corrupt archives, a dataset download either leaves a complete usable result or raises an error; a truncated file is never left under the final name and never mistaken for a finished download later. An extracted dataset or usable archive is not downloaded again, one failed transfer is retried, and a corrupt archive triggers a fresh download.",
  ["fault_sequences", "histories"], "all fault sequences up to the bound (failure point and kind are variables), existing/partial files on disk",
  "Faults at each point of the sequence are not reproducible with ordinary tests.",
  ["src/torchrir/datasets/librispeech.py", "src/torchrir/datasets/cmu_arctic.py", "src/torchrir/datasets/_archive.py"],
  [("download to a partial file then rename", "src/torchrir/datasets")],
  ["torchrir.datasets.CmuArcticDataset", "torchrir.datasets.LibriSpeechDataset"], "the network and the archive reader are models with symbolic faults; files are real files in a scratch directory."),
P("C27", "Dataset sources are loaded as distinct speakers of the asked length",
  "Loading dataset sources returns the asked number of signals from distinct speakers, each exactly the asked duration (utterances joined in order, then cut), all at the same sampling rate, with truthful information about which utterances were used. Too few speakers or mismatched sampling rates are rejected.",
  ["inputs", "histories"], "all utterance lengths, durations, sampling rates, speaker assignments and random choices up to the bound",
  "Joining and cutting depend on length combinations; selection depends on the random draw.",
  ["src/torchrir/datasets/utils.py"], [("selection and concatenation", "src/torchrir/datasets/utils.py")],
  ["torchrir.datasets"], "a model dataset with symbolic lengths; random choices are free."),
P("C28", "Collating a batch preserves every item",
  "A collated batch contains each item's audio unchanged at its own index followed only by padding, with the true lengths, and each item's metadata at the same index, whatever the mix of lengths, keys and data types (mixed types are kept exactly). Items that cannot be batched (different sampling rates or channel layouts) are refused rather than mixed.",
  ["inputs", "configurations"], "all audio values and lengths up to the bound",
  "Length mixes and optional fields multiply; tests use one pair.",
  ["src/torchrir/datasets/collate.py"], [("padding", "src/torchrir/datasets/collate.py")],
  ["torchrir.datasets"], "up to 3 items, lengths <= 4."),
P("C29", "Transcript files map to the right utterances",
  "Every well-formed transcript line yields its utterance id and full text, including quotes and spaces inside the text, blank lines are skipped, and listed utterances pair each transcript with the audio file of the same id and speaker, in an order that does not depend on the file system. Utterances without audio are not invented.",
  ["inputs"], "all line contents over the stated alphabet and length; file presence is a variable",
  "Parsing is quantified over strings; tests parse one or two lines.",
  ["src/torchrir/datasets/cmu_arctic.py", "src/torchrir/datasets/librispeech.py"],
  [("line parsing", "src/torchrir/datasets/cmu_arctic.py")],
  ["torchrir.datasets.CmuArcticDataset", "torchrir.datasets.LibriSpeechDataset"], "lines built from symbolic pieces; parsed by the real code."),
P("C30", "Generated scenes respect their geometric constraints",
  "Every generated dynamic scene places the array and all source positions inside the room with the required margins, keeps every source at the minimum distance from the array centre, starts the sources evenly spaced in azimuth around the array, keeps motion within the requested bounds, and holds still before the start and after the end of the motion window. This holds for every random draw; options whose layout cannot fit in the room are refused with a ValueError.",
  ["inputs", "configurations"], "all random draws as free variables; option values in the admissible ranges",
  "The builder is random; a test sees a few seeds.",
  ["src/torchrir/datasets/dynamic_cmu_arctic.py"], [("scene sampling", "src/torchrir/datasets/dynamic_cmu_arctic.py")],
  ["torchrir.datasets.build_dynamic_cmu_arctic_dataset"], "generator draws are free variables."),
P("C31", "A built dataset is self-consistent on disk",
  "For every built scene the stored mixture equals the sum of the stored source images at one common gain that never amplifies and keeps the mixture from clipping (a quiet scene is stored unscaled), and the stored metadata describes exactly the geometry, motion and files used to produce it. Only sources of one sampling rate are mixed, and scene numbering, file names and counts match the request.",
  ["inputs", "configurations"], "all source signals and gains (free variables)",
  "Clipping and scaling depend on signal values; one seed does not reach them.",
  ["src/torchrir/datasets/dynamic_cmu_arctic.py", "src/torchrir/io/outputs.py"],
  [("level normalisation and saving", "src/torchrir/datasets/dynamic_cmu_arctic.py")],
  ["torchrir.datasets.build_dynamic_cmu_arctic_dataset"], "audio writing replaced by a recorder of the exact sample values."),
P("C32", "Building never destroys an existing dataset unasked",
  "Building into a directory that already holds a dataset changes nothing and raises an error unless overwriting was requested; options that can be seen to be invalid without drawing a scene are rejected before anything is written or removed. With overwriting requested only the dataset's own directory is replaced.",
  ["histories", "configurations"], "all combinations of existing content, flags and option validity",
  "The order of validation and deletion matters only for combinations of bad options and existing data.",
  ["src/torchrir/datasets/dynamic_cmu_arctic.py"], [("argument validation and directory preparation", "src/torchrir/datasets/dynamic_cmu_arctic.py")],
  ["torchrir.datasets.build_dynamic_cmu_arctic_dataset"], "scratch directories; options symbolic."),
P("C33", "Saving and loading audio preserves the signal",
  "Audio is written with the values and channel order given (time-major or channel-major input alike: up to eight rows are channels, otherwise the shorter axis is; unnormalised wav values beyond full scale are kept), except that requested peak normalisation scales all channels by one common factor so that the largest magnitude is the requested peak and silence stays silent. Unsupported shapes and formats are refused, and loading returns the file's first channel as mono (with a warning when channels are dropped) with its sampling rate.",
  ["inputs", "configurations"], "all sample values, channel counts and lengths up to the bound, both layouts",
  "Layout guesses depend on shape combinations; scaling on values.",
  ["src/torchrir/io/audio.py", "src/torchrir/io/outputs.py"], [("normalisation and layout", "src/torchrir/io/audio.py")],
  ["torchrir.io"], "the sound-file library is replaced by a recorder of the exact values it is given."),
P("C34", "Scene metadata states the simulated geometry truthfully",
  "Metadata built for a scene reports the room, positions, trajectories, time stamps and directions of arrival that were simulated: azimuth and elevation are those of the vector from each microphone to each source at every step, time stamps run evenly from zero to the last sample, the stated spacing is the smallest distance between two microphones, and numbers survive writing and reading back.",
  ["inputs", "configurations"], "all positions and trajectories; 2-D and 3-D; static and moving entities",
  "Direction formulas need generic geometry at every step.",
  ["src/torchrir/io/metadata.py"], [("metadata assembly", "src/torchrir/io/metadata.py")],
  ["torchrir.io"], "directions compared as trigonometric terms of the same vector."),
P("C35", "Attribution files list exactly what was used",
  "The attribution written beside generated data states the dataset, source, licence and required attribution, the subset when one was used, and every modification note, in order, exactly once. Dataset objects report their own dataset and subset, and incomplete attributions are refused.",
  ["inputs", "histories"], "all field texts (symbolic strings) and lists of notes up to the bound",
  "Duplicates and omissions depend on the texts and their number.",
  ["src/torchrir/datasets/attribution.py"], [("attribution assembly", "src/torchrir/datasets/attribution.py")],
  ["torchrir.datasets"], "texts symbolic up to a few characters."),
P("C36", "Logging set-up is idempotent and stays in the library's namespace",
  "Any sequence of logging set-up calls leaves exactly one library handler, at the most recently requested level and format (when the user attached no handlers of their own), never touches the root logger, and loggers obtained by name always live under the library's own namespace. Each message is emitted once.",
  ["histories", "configurations"], "all call sequences up to the bound, levels and names symbolic",
  "Idempotence is about sequences of calls; tests make one or two.",
  ["src/torchrir/logging.py"], [("handler management", "src/torchrir/logging.py")],
  ["torchrir.logging"], "sequences of up to 3 calls; level numbers and names chosen symbolically."),
P("C37", "Device selection never returns an unavailable backend",
  "Resolving a device requested by name returns that device when its backend is available, falls back to the CPU (or the best available one for automatic selection) when it is not, and returns device objects as given; data type and device of the inputs are kept when nothing is requested. All inputs of one computation end on one device with one data type.",
  ["configurations"], "all combinations of backend availability, requests and input devices",
  "The test machine has one combination of backends.",
  ["src/torchrir/util/device.py", "src/torchrir/util/tensor.py"], [("resolution", "src/torchrir/util/device.py")],
  ["torchrir.util"], "availability flags are Boolean variables."),
P("C38", "Visualisation problems never lose results",
  "A failure while drawing or encoding an optional plot, video or sound track never aborts the surrounding computation, never leaves temporary files behind, and a failure to add sound keeps the silent video already written.",
  ["fault_sequences", "inputs"], "all failure points of drawing, writing and encoding, all error types, both views",
  "Encoder and drawing failures are not simulated by the tests.",
  ["src/torchrir/viz/io.py", "src/torchrir/viz/animation.py"], [("error handling and muxing", "src/torchrir/viz/io.py")],
  ["torchrir.viz"], "drawing and encoding replaced by recorders with symbolic faults."),
P("C39", "Calls do not influence one another",
  "The result of any simulation, convolution or geometry call depends on its arguments only: after any history of other calls (other kernel lengths, tables, data types, chunk sizes, rooms, seeds), the same call gives the same result as if it were made alone. No call changes its inputs, a result already returned, or the global random state, and changing a result the caller owns does not affect later calls.",
  ["histories", "inputs", "configurations"], "all ordered pairs of the stated calls followed by the first call again, symbolic scene and coefficients",
  "Cached tables and in-place arithmetic go wrong only in particular orders of calls with particular settings; tests start from fresh inputs.",
  [ISM + "accumulate.py", ISM + "api.py", "src/torchrir/signal/dynamic.py", "src/torchrir/util/orientation.py"],
  [("cached kernel grids, windows and sinc tables", ISM + "accumulate.py:_get_sinc_lut"), ("in-place tail and accumulation", ISM + "diffuse.py")],
  ["torchrir.sim.simulate_rir", "torchrir.sim.simulate_dynamic_rir", "torchrir.signal", "torchrir.geometry"],
  "histories of three calls from the library's state at import; module-level containers are reset generically."),
P("C40", "Plots and animations show the scene as it is",
  "Static plots, trajectory plots and animation frames draw the room's outline and limits, every source and microphone at its position, and every moving entity's path at every k-th step; source labels sit at their sources, numbered in order. Animation frames show step 0, k, 2k, ... in order, never beyond the last step, each with the positions and paths up to its own step, at the requested rate or lasting as long as the signal.",
  ["inputs", "configurations"], "all rooms, positions, trajectories, strides, rates and durations; 2-D and 3-D views; objects, tensors and lists",
  "Tests only look at whether a file appears; frame selection and coordinates depend on counts and geometry.",
  ["src/torchrir/viz/scene.py", "src/torchrir/viz/animation.py", "src/torchrir/viz/io.py"],
  [("drawing of entities and paths", "src/torchrir/viz/scene.py:_plot_entity"), ("frame selection", "src/torchrir/viz/animation.py")],
  ["torchrir.viz"], "matplotlib replaced by recorders of the coordinates drawn."),
P("C41", "The dataset command line means what it says",
  "Every option of the dataset command line reaches the builder unchanged under its own meaning: numbers with their exact value, triples as three numbers, paths resolved, speakers in order, switches and their negations with the later one winning. An option that is not given leaves the builder's own default in force, and a malformed triple is refused before anything is built.",
  ["configurations", "inputs"], "all values of every numeric option, all subsets of the stated option groups, all flag combinations within a group",
  "Tests call the builder directly; a swapped, clamped or dropped option shows only for particular combinations.",
  ["src/torchrir/datasets/dynamic_cmu_arctic.py"], [("argument parsing and hand-over", "src/torchrir/datasets/dynamic_cmu_arctic.py:main")],
  ["torchrir.datasets.dynamic_cmu_arctic.main"], "numbers are replaced by symbolic ones right after parsing; edge values are also parsed literally."),
]

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            if p["statement"].count(". ") > 2:
                print("long statement", p["id"])
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i + ".py")) and i not in NOT_APPLICABLE:
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} --tier quick",
                               thorough_cmd=f"bash check.sh {i} --tier thorough",
                               evidence_file=f"evidence/{i}.json", technique=p["tech"], level=p["level"],
                               level_note=p["note"]))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                   notes="Solver-based checking of the real code; see DESIGN.md.  No hooks in /repo are needed."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
