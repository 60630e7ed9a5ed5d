prop('C01', 'Frame buffers release complete time segments, in order, exactly once',
     "For any arrival order of frames of the expected identities (losses, duplicates, jitter and stragglers included), a "
     "frame buffer hands out segments in strictly increasing time order, each slot at most once, oldest first, and only "
     "when the ring holds its configured number of segments or the caller forces or flushes it. Each segment has exactly "
     "one frame per expected identity: the first copy received, unaltered and valid, or else a zero-filled frame of that "
     "slot and identity marked invalid; with reordering on (DRX, DRX8, TBX, VDIF) frames come sorted by identity. Frames "
     "for slots already handed out and duplicates are never handed out, and the full, partial, missing and dropped "
     "counters account for exactly what happened.",
     ['histories', 'inputs'], 'every sequence of append/get/peek/flush/reset calls on the DRX, DRX8, COR, TBX and VDIF buffers',
     "The tests play one 33-frame DRX file, in order and without losses but the last slot; they never reorder, duplicate, "
     "delay or mix operations, and never touch the other four buffers.",
     ['lsl/reader/buffer.py'],
     [('append: late frames are dropped against the last slot handed out', 'lsl/reader/buffer.py FrameBufferBase.append'),
      ('get/peek/flush: oldest slot, weed out duplicates, create fill', 'lsl/reader/buffer.py FrameBufferBase.get'),
      ('create_fill per format', 'lsl/reader/buffer.py *FrameBuffer.create_fill')],
     technique='TLA+ model checked with TLC; TLC behaviours replayed into the buffers; recorded traces validated by TLC',
     note='Exhaustive for the model at 2 identities, 3 slots, 7-9 operations; every 4-5 operation history of the model and '
          'random long ones run on the real buffers, each call and counter judged by the trace specification.',
     state=[('ring', 'time slot -> frames received', 'FrameBufferBase.buffer'),
            ('mark', 'last slot handed out', 'FrameBufferBase.done')])
prop('C02', 'A split recording reads exactly like one whole file',
     "Reading a recording that was cut into parts through the split-file wrapper is indistinguishable from reading the "
     "parts joined end to end: for every way of cutting (empty and one-byte parts included) and every sequence of reads and "
     "seeks (from the start, the current position or the end) the bytes, the lengths, the position and the total size are "
     "those of the whole, and a seek before the start is refused without moving. A position saver puts the file back where "
     "it was, however the block is left; a closed wrapper refuses reads, seeks and tells.",
     ['inputs', 'histories'], 'every cut of a file into parts and every sequence of read/seek/tell/close and saver enter/leave',
     "The tests read one DRX file cut in two through the LDP reader; no test seeks from the end, reads over two borders, or "
     "uses empty parts.",
     ['lsl/reader/utils.py'],
     [('part switching on read', 'lsl/reader/utils.py SplitFileWrapper.read'),
      ('part look-up on seek', 'lsl/reader/utils.py SplitFileWrapper.seek'),
      ('position restore', 'lsl/reader/utils.py FilePositionSaver')],
     technique='TLA+ model checked with TLC; TLC behaviours replayed into the wrapper; recorded traces validated by TLC',
     note='Exhaustive for the model with 3-4 parts of up to 3 bytes and 6-8 operations; all 2-operation histories over all '
          'cuts and random longer ones run on the real wrapper, every byte and position judged.')
prop('C03', 'Reads of a recording tile it: every slot once, in time order, whole and on time',
     "For a recording opened with the DRX, DRX8, TBX or DR spectrometer reader, successive reads return its time slots one after "
     "the other, each once, in time order, from the first to the last, whatever the sizes of the reads, the shuffling of frames "
     "within the depth of the ring, junk before the first or a partial frame after the last, a cut into split files, or the output type: each read's "
     "start time is that of its first slot, the duration is that of the slots returned (all asked for, or all that are left; TBX "
     "at least one), lost frames are zeros, and nothing else is non-zero. A gap of fewer slots than the reader's auto-fill size is returned as zeros "
     "wherever it is; a longer one (for the spectrometer, any) is a RuntimeError, or is skipped if time tag errors are ignored; with nothing left a "
     "read raises EOFError, and reset() starts over. After offset() on an intact recording the next read starts exactly the returned time after the next "
     "undelivered slot, and the returned time is within two slots of the one asked for.",
     ['inputs', 'histories'], 'every recording (losses, gaps, shuffling, junk, truncation, cuts) and every sequence of read/reset/offset calls',
     "The tests read a handful of short, intact, in-order files with one or two calls; losses, gaps, reordering, truncation and "
     "reads that cross the ring are never combined.",
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py', 'lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/drspec.cpp'],
     [('read: ring, zero fill, flush at the end', 'lsl/reader/ldp.py DRXFile.read, DRX8File.read, TBXFile.read, DRSpecFile.read'),
      ('offset/reset bookkeeping', 'lsl/reader/ldp.py *.offset, LDPFileBase.reset'),
      ('frame decoding', 'lsl/reader/drx.cpp, drx8.cpp, tbx.cpp, drspec.cpp')],
     technique='TLA+ model checked with TLC; TLC-chosen recordings and call sequences run through the readers; recorded traces validated by TLC',
     note='Exhaustive for the model at 7-9 slots, 4-5 calls; thousands of synthetic recordings with TLC-chosen and random '
          'losses, gaps, shuffles and calls, every returned sample block identified and judged.',
     state=[('cursor', 'next slot to hand out', 'LDPFileBase.fh position, .buffer and ._timetag')])
prop('C04', 'Frame timestamps keep, convert, shift and compare instants to the sample',
     "A frame timestamp made from a time tag (with offset), a UNIX time, (M)JD, day/second pair, pulsar MJD or datetime denotes that instant, and "
     "reads back in every form (time tag to the exact 1/196 MHz tick, pulsar MJD with day, second below 86400 and fraction below 1, UNIX, MJD, JD, "
     "datetime, astropy) as that instant to the precision of the form. Adding or subtracting an interval shifts it by exactly that interval, in "
     "place or not, across seconds, days and years; the difference of two is the time between them; the six comparisons agree with the order of the "
     "instants, against timestamps and numbers alike; no operation changes its operands.",
     ['inputs', 'histories'], 'every instant 1980-2038 to the tick and every sequence of construction, shift, difference and comparison',
     "The tests convert two or three time tags and add whole seconds; midnight, tick carries and mixed-form comparisons are not sampled.",
     ['lsl/reader/base.py'],
     [('integer and fractional seconds kept apart, normalised', 'lsl/reader/base.py FrameTimestamp.__init__, __add__, __iadd__'),
      ('conversions', 'lsl/reader/base.py FrameTimestamp.from_*, dp_timetag, pulsar_mjd, unix, mjd, jd, datetime, astropy')],
     technique='TLA+ model (exact tick arithmetic) checked with TLC; TLC histories scaled to real ticks run on the class; recorded traces validated by TLC',
     note='Exhaustive for the model with small clock constants (carries at every boundary); thousands of real instants, biased to tick, second, day '
          'boundaries, judged with integer arithmetic to the tick.')
prop('C05', 'Locks exclude: one holder at a time, across threads and processes, nesting',
     "Of all the threads and processes that use a FileLock on the same name (sharing an instance or not), and of all the threads that use a MemoryLock, at most "
     "one holds it at any time; who holds it may acquire it again, and it stays held until the last release (or the process dies, which frees it). A "
     "non-blocking or timed acquire returns False exactly when someone else holds the lock, a blocking one on a free lock returns True, locked() is "
     "true for the holder, and releasing a lock that one does not hold frees nothing.",
     ['schedules', 'histories', 'crash_points'], 'every interleaving of acquire/try/release/locked by threads and processes, and the death of a process at any point',
     "No test takes a lock from two threads or processes, nests it, or kills a holder.",
     ['lsl/misc/file_lock.py'],
     [('flock on a sibling file, checked against the path', 'lsl/misc/file_lock.py FileLock.acquire, release'),
      ('RLock', 'lsl/misc/file_lock.py MemoryLock')],
     technique='TLA+ model and a step-level model of the flock protocol that refines it, checked with TLC; TLC schedules replayed into real threads and processes; recorded traces validated by TLC',
     note='All interleavings of the step-level model (2 processes, 3 threads, crashes) exhaustively; every 4-operation schedule of five agents and random '
          'longer ones, with kills, replayed; free-running contention judged from a shared log.',
     state=[('holder', 'agent that has the lock, and how often', 'FileLock._locked/_depth, MemoryLock._depth')])
prop('C06', 'The caches keep what was written; they evict the oldest, and only if over limit',
     "The file and the memory cache give back, for every name, exactly the bytes last written or appended to it (read as bytes, text, pieces or lines; sizes, modification times and "
     "membership to match), also if the writing block was left by an exception and, on disk, after the cache is reopened; reading, sizing or stat-ing a name that is "
     "not there is an OSError and creates nothing, and removing it does nothing. Opening a file for writing in a cache with a size limit removes the "
     "least recently written of the other files, subdirectories included, one by one, just until the total fits or one file is left; never the file being opened, and nothing is ever removed otherwise. "
     "A block has the cache to itself until it is left, however it is left, across threads and processes.",
     ['histories', 'schedules'], 'every sequence of open/write/append/read/remove/reopen calls with failures, limits and concurrent users',
     "The tests write one or two small files and read them back; the limit, failures in the block, missing files and concurrency are not tested.",
     ['lsl/misc/file_cache.py'],
     [('eviction', 'lsl/misc/file_cache.py FileCache._cache_management, MemoryCache._cache_management'),
      ('locked open', 'lsl/misc/file_cache.py FileCache.open, MemoryCache.open, MemoryFile')],
     technique='TLA+ model checked with TLC; TLC behaviours replayed into both caches; recorded traces validated by TLC',
     note='Exhaustive for the model with 4 files, 5-7 operations; random model walks of 12 operations and longer random ones on the real caches, '
          'with every file observed after each operation; lost-update runs of several processes and threads.')
prop('C07', 'Configuration values are typed, scoped, and persist across sessions',
     "A configuration parameter reads, through the container and any section view, as it was last set in the session, or as loaded from the file, or else as "
     "its default; unknown names are a ValueError, a change of type of a non-optional parameter is a TypeError that changes nothing, and a set_temp block restores the value and lets "
     "exceptions through, however it is left. Saving writes all of the session's values so that the next session loads the same values of the same types "
     "(None included), without touching a file that has nothing to be changed; a session whose file was changed by someone else since it was loaded or saved gives "
     "up its own changes and never overwrites the other's.",
     ['histories', 'schedules'], 'every interleaving of two sessions\' open/get/set/set_temp/save/close calls with hand edits and upgrades',
     "The tests set and reset one parameter in one session; nothing is saved and loaded again with different values, and there is never a second session.",
     ['lsl/config.py'],
     [('load/save', 'lsl/config.py LSLConfigContainer._load_config, _save_config'),
      ('set, set_temp, views', 'lsl/config.py LSLConfigContainer.set, set_temp, LSLConfigSubContainer')],
     technique='TLA+ model checked with TLC; TLC walks replayed into two containers on one file; recorded traces validated by TLC',
     note='Exhaustive for the model with 3 parameters, 2 sessions, 7-8 operations; thousands of 14-operation walks on the real containers, every value, view and '
          'the file judged after each.')
prop('C08', 'A frame read from a recording is what its bytes say, and errors tell where',
     "Reading a DRX, DRX8, TBX, COR, VDIF or DR spectrometer recording at any position has the one outcome that the bytes there decide. A whole frame "
     "with its sync word is returned with every header field (and what is derived from it: identities, filter code, tuning, products) equal to the "
     "bytes of its header, every sample equal to its bits (two's complement or VDIF levels; by stand, channel, polarization or tuning; YX the conjugate "
     "of XY for COR auto-correlations; spectra normalized by transform length and fills), the same as floats and as integers, and the file just after it. "
     "Fewer bytes than a frame raise EOFError; bytes that do not start a frame raise SyncError with that position, after which the file is there "
     "(one frame on for DRX and DRX8), so that reading and skipping delivers every intact frame once. Functions that describe a recording (frame size, rate, beams, "
     "channels, threads, products) answer from its frames and leave the file where it was.",
     ['inputs', 'histories'], 'every byte content of a frame, every recording of good, bad and truncated frames, every sequence of reads, seeks and descriptions',
     "The tests read a few frames of one intact sample file per format and compare a handful of header values; payload bits, the integer "
     "readers, bad sync words, mode changes and truncation at other places are not settled by them.",
     ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/vdif.cpp', 'lsl/reader/drspec.cpp',
      'lsl/reader/gofast.cpp', 'lsl/reader/drx.py', 'lsl/reader/drx8.py', 'lsl/reader/tbx.py', 'lsl/reader/cor.py', 'lsl/reader/vdif.py', 'lsl/reader/drspec.py'],
     [('header and sample decoding', 'lsl/reader/*.cpp read_* and parse_*'),
      ('look-up tables', 'lsl/reader/gofast.cpp initLWALUTs, lsl/reader/vdif.cpp initVDIFLUTs'),
      ('error positions', 'lsl/reader/*.py read_frame, read_frame_ci8, read_frame_i8'),
      ('descriptions', 'lsl/reader/*.py get_*')],
     technique='TLA+ model of the formats at byte level checked with TLC; TLC-chosen recordings and reads run through the readers; every field and sample judged by TLC',
     note='Exhaustive for the model with 3-4 frames per recording and 4-5 operations in all six formats; every sample of every frame read is decoded '
          'from the bytes by the specification and compared.',
     state=[('pos', 'position of the file', 'the file handle')])
prop('C09', 'Visibilities and spectra are those of the samples, the delays and the geometry',
     "For every set of inputs (stands, polarizations, sample values and types, real or complex) the FX correlator returns, for each baseline in the "
     "order it lists, the average over all whole (overlapping) windows of F1*conj(F2)/N, with F the windowed transform (polyphase filter banks aside) of the input advanced by its cable and geometric delay, "
     "the whole-sample part in time and the rest in phase; windows in which either input reaches the clip level are left out of that baseline only; gain correction divides by "
     "the geometric mean of the cable gains. Spectra are the auto-correlations, Stokes products the sums and differences that go with them, and correlating spectra "
     "directly agrees with correlating samples. Frequencies are those of the channels. Inputs are left unchanged. Baseline numbers and antenna "
     "pairs convert to each other (auto-correlations too), and (u,v,w) is the baseline in wavelengths turned to the hour angle and declination.",
     ['inputs'], 'every number and order of stands and polarizations, every signal, data type, transform length, overlap, window, clip level, delay, gain and phase centre',
     "The tests compare a few random signals with numpy at one set of lengths with all delays set to zero (cables of no length at the origin), so delays, overlap, clipping, gains, order of inputs and "
     "baseline numbers with auto-correlations are not settled by them.",
     ['lsl/correlator/fx.py', 'lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/uvutils.py'],
     [('F engine: whole-sample delays, windows and phases', 'lsl/correlator/core.cpp compute_delay_components, compute_phase_rotator, compute_fengine_*'),
      ('X engine: products over valid windows', 'lsl/correlator/core.cpp XEngine2, lsl/correlator/stokes.cpp XEngine3'),
      ('delays, phase centre, gains and baselines', 'lsl/correlator/fx.py FXMaster, FXStokes, XMaster, XStokes'),
      ('baseline numbers and uvw', 'lsl/correlator/uvutils.py')],
     technique='TLA+ model of the correlator in integer arithmetic checked with TLC; its and random inputs run through the real engines; every visibility recomputed and judged by TLC',
     note='Exhaustive for the model with two inputs of 3-5 samples from {0,1,i}, 1-4 channels, overlaps, clipping, delays and central frequencies, windows in any order; '
          'up to 8 inputs, transforms of 1-8 samples on the code. Polyphase filter bank not covered.',
     state=[('acc', 'products summed so far by baseline and channel', 'output of the X engine'), ('nact', 'windows summed', 'nActVis')])

prop('C10', 'Visibility files hold what was given to the writer; readers return just that',
     "For every set of integrations given to the FITS IDI (all flavours), UVFITS and measurement set writers - any stands and their order, polarizations in any order, "
     "baselines in any order and direction (auto-correlations too), bands, weights, times across midnight - the file has each visibility once under its own time, "
     "baseline, polarization and channel, with the frequencies, stands, antenna positions and site; reading it back with lsl.imaging.utils returns the same values, weights and (u,v,w), "
     "in baseline order if asked, with auto-correlations and (u,v) ranges selected as asked, for one, several or all of the integrations. "
     "Data that a file cannot label (an integration without one of the polarizations or baselines, polarizations that do not go together) are refused, and a file that exists is not overwritten unless asked.",
     ['inputs', 'histories'], 'every array, polarization set, order of data sets and baselines, number of bands, weights and times, for each format and each choice of what to read',
     "The tests write two integrations of one array in one order and look at keywords and shapes; the tests of the reader use a few archived files. No test writes data in one order and reads the values back.",
     ['lsl/writer/fitsidi.py', 'lsl/writer/uvfits.py', 'lsl/writer/measurementset.py', 'lsl/imaging/utils.py'],
     [('baselines and data sorted into rows', 'lsl/writer/fitsidi.py _write_uvdata, lsl/writer/uvfits.py _write_primary_hdu, lsl/writer/measurementset.py _write_main_table'),
      ('antenna numbers and positions', 'lsl/writer/fitsidi.py set_geometry, _write_geometry; measurementset.py _write_antenna_table'),
      ('integrations, baselines and polarizations of a file', 'lsl/imaging/utils.py CorrelatedDataIDI, CorrelatedDataUV, CorrelatedDataMS get_data_set')],
     technique='TLA+ model of the rows of a visibility file checked with TLC; its behaviours written and read back with the real writers and readers; every cell judged by TLC',
     note='Exhaustive for two antennas, two integrations and polarizations in the model; up to 4 antennas, 4 integrations, 3 bands and 4 polarizations on the code.',
     state=[('data', 'the data sets given to the writer', 'BaseWriter.data'), ('rows', 'rows of the file', 'UV_DATA / primary HDU / MAIN table')])

prop('C11', 'Copies, selections and conversions of visibilities are right, and independent',
     "Whatever the sequence of operations on visibility data in memory - copies, antenna subsets (by index or stand, include before exclude), (u,v) ranges, sorting, conversions between linear, Stokes "
     "and circular polarizations, lists of integrations - each baseline keeps its own (u,v,w), spectrum, weights and flags in every polarization. Selections, copies and conversions are new objects: "
     "changing them or the original later changes nothing else, the arguments included; sorting a list orders the integrations by time and each by baseline. Conversions combine weights and flags and give the "
     "original back the other way around. Lists refuse an integration they have, or one of another shape.",
     ['histories', 'inputs'], 'every sequence of operations on every set of integrations, baselines, polarizations, weights and flags',
     "The tests apply one operation to one archived file and compare counts; what happens to the other objects, to integrations that differ, to weights and flags or after a second operation is not looked at.",
     ['lsl/imaging/data.py', 'lsl/imaging/utils.py'],
     [('selection and sorting', 'lsl/imaging/data.py VisibilityDataSet.sort, get_uv_range, get_antenna_subset, PolarizationDataSet.sort, subset'),
      ('copies and lists', 'lsl/imaging/data.py VisibilityDataSet.copy, VisibilityData'),
      ('conversions', 'lsl/imaging/utils.py convert_to_stokes, convert_to_linear, convert_to_circular')],
     technique='TLA+ model of the heap of data sets and lists checked with TLC; its behaviours replayed on the real classes; all objects judged by TLC after each operation',
     note='Exhaustive for two objects and three operations in the model; walks of 26 operations on up to nine objects on the code. Rephasing is not modelled.',
     state=[('heap', 'the data sets', 'VisibilityDataSet objects'), ('lists', 'which are in which list', 'VisibilityData._data')])

prop('C12', 'Session definition files say exactly what the session says, and only good ones',
     "However the times, durations, coordinates and frequencies of an observation are given, they mean the same milliseconds, angles and tuning words. A session is accepted by validate(), and can be "
     "rendered, if and only if it obeys the rules of the station: ranges of every setting, targets above the horizon for the whole time, no overlaps, no mixture of modes, data volume. A rendered file says what "
     "the session says, in order of time; parse_sdf gives that back, each observation and step independent of those before it, in any order of the lines of an observation, with unset values at their defaults; "
     "rendering again changes nothing; an existing file is replaced only on request. A refused value changes nothing.",
     ['histories', 'inputs'], 'every sequence of building, changing, checking, writing and reading projects, sessions, observations and steps',
     "The tests read a few archived files with one or two observations, and change one value at a time.",
     ['lsl/common/sdf.py', 'lsl/common/_sdf_utils.py'],
     [('values', 'lsl/common/sdf.py Observation and BeamStep setters; lsl/common/_sdf_utils.py parse_time'),
      ('acceptance', 'lsl/common/sdf.py Project.validate, Session.validate, Observation.validate, BeamStep.validate'),
      ('the file', 'lsl/common/sdf.py Project.render, Project.writeto, parse_sdf, _parse_create_obs_object'),
      ('the lists', 'lsl/common/sdf.py _TypedParentList')],
     technique='TLA+ model of sessions, their acceptance and the file as a sequence of lines read one by one, checked with TLC; its behaviours replayed on the real module; objects, files and verdicts judged by TLC',
     note='Exhaustive for two observations in the model; walks of 16 operations with up to four observations on the code. Cases within a degree of the horizon are not judged.',
     state=[('ss', 'the sessions and their observations', 'Project.sessions, Session.observations'), ('file', 'the lines that were written', 'the text of Project.render')])
prop('C13', 'Interferometer definition files and the sessions made from them are faithful',
     "The same for interferometer runs: a run is accepted if and only if every scan is in range, visible from every station, free of overlap and of the same filter, with at most ten alternate phase centers within "
     "half a beam, and no station twice. The file says what the run says; parse_idf gives it back, each scan and phase center independent of those before it, and rendering again changes nothing. "
     "generate_sdfs gives one valid session per station, in order, with consecutive numbers: every scan with its times, tunings, filter, gain and target, moved by its proper motion to the date of the scan, "
     "the phase centers likewise, and the correlator setup, user and return method of the run.",
     ['histories', 'inputs'], 'every sequence of building, changing, checking, writing, reading and converting runs of scans',
     "The tests read three archived files with one or two scans, and look at the number of the sessions that are generated.",
     ['lsl/common/idf.py', 'lsl/common/sdf.py', 'lsl/common/_sdf_utils.py'],
     [('values', 'lsl/common/idf.py Scan, AlternatePhaseCenter and Run setters'),
      ('acceptance', 'lsl/common/idf.py Project.validate, Run.validate, Scan.validate, AlternatePhaseCenter.validate'),
      ('the file', 'lsl/common/idf.py Project.render, Project.writeto, parse_idf'),
      ('the sessions', 'lsl/common/idf.py Project.generate_sdfs')],
     technique='TLA+ model of runs, their acceptance, the file read line by line and the sessions of the stations, checked with TLC; its behaviours replayed on the real module and judged by TLC',
     note='Exhaustive for two scans in the model; walks of 16 operations with up to four scans on the code.',
     state=[('ss', 'the runs and their scans', 'Project.runs, Run.scans'), ('file', 'the lines that were written', 'the text of Project.render')])
prop('C14', 'Metadata bundles are read as they are, whatever is in them and around them',
     "The questions of lsl.common.metabundle (session and observation specifications, command script, session metadata, definition file, SDM, ASP configuration, minimum delay, host name, station, validity) are answered with what the "
     "bytes of the named member of the bundle that is on disk at that moment say, by the C declarations and their layout, independent of earlier questions and bundles and of the current directory. A question for which the bundle has no "
     "member, or a damaged one, fails or gives the documented empty answer and never the content of another member. Reading a bundle creates, changes and reads nothing outside of it and leaves no temporary file.",
     ['histories', 'inputs'], 'every sequence of writing, replacing and asking bundles with any members, names, links and damage',
     "The tests read a few archived bundles, one question at a time, and look at a few of the fields.",
     ['lsl/common/metabundle.py', 'lsl/common/_metabundle_utils.py', 'lsl/common/mcs.py', 'lsl/common/sdm.py'],
     [('which member', 'lsl/common/metabundle.py get_*, is_valid; lsl/common/_metabundle_utils.py get_*'),
      ('what it says', 'lsl/common/metabundle.py read_ses_file, read_obs_file, read_cs_file; lsl/common/sdm.py parse_sdm; lsl/common/mcs.py MIB'),
      ('layout of structures', 'lsl/common/mcs.py parse_c_struct, flat_to_multi'),
      ('extraction', 'lsl/common/_metabundle_utils.py managed_mkdtemp, _open_tarball, _extract_member')],
     technique='TLA+ model of bundles, their cache and extraction, and of the layout of C structures, checked with TLC; its behaviours replayed on real tar files and judged by TLC, which decodes the bytes itself',
     note='Exhaustive for two bundles of up to two members in the model; walks of 18 operations with up to sixteen members on the code.',
     state=[('fs', 'the bundles on disk', 'the tar files'), ('cache', 'the bundle that was read last', '_open_tarball'), ('tmp', 'extracted members', 'managed_mkdtemp')])
prop('C15', 'Station files are read into the station they describe, and copies stay apart',
     "parse_ssmif builds, from the text or from the binary form of a station file, through a name or a handle, the station the file describes: each statement takes effect on the cell it names and on no other, a later statement replaces "
     "an earlier one, a statement without subscript is about all cells, and entries that are not in use are not part of the station. Each antenna has its own stand, FEE and port, cable, ARX channel, digitizer input and attenuation, and "
     "the antennas are in the order of the digitizer inputs, also after they are replaced. Copies and pickles of a station are equal to it and independent of it, a SDM updates the status of a new list of antennas only, and each "
     "stand is where its offset from the station says, whatever copies there were.",
     ['histories', 'inputs'], 'every station file, and every sequence of reading, copying, changing and updating stations',
     "The tests parse the files of the package without an error and look at a few values of one of them.",
     ['lsl/common/stations.py', 'lsl/common/sdm.py', 'lsl/common/mcs.py'],
     [('text form', 'lsl/common/stations.py _parse_ssmif_text'), ('binary form', 'lsl/common/stations.py _parse_ssmif_binary, lsl/common/mcs.py SSMIF_STRUCT'),
      ('wiring', 'lsl/common/stations.py parse_ssmif'), ('order', 'lsl/common/stations.py LWAStationBase.antennas'),
      ('copies', 'lsl/common/stations.py __reduce__ of the classes'), ('updates', 'lsl/common/sdm.py SDM.update_antennas')],
     technique='TLA+ model of the tables of a station file, statement by statement, of the wiring and of copies, checked with TLC; its behaviours replayed on real files in both forms and judged by TLC',
     note='Exhaustive for four operations in the model; walks of nine operations with stations of up to four stands on the code.',
     state=[('tab', 'the tables', 'the locals of _parse_ssmif_text'), ('sts', 'the stations', 'LWAStation')])
prop('C16', 'Dates, clocks and time scales keep the instant, whatever form it goes through',
     "An instant carried through any chain of the forms of lsl.astro and lsl.common.mcs - calendar date, date of a time zone, (modified) Julian day, UNIX time, MJD and MPM, datetime, text, pickle, and the UTC, TAI, TT and TDB scales - is the "
     "same instant in each, to the resolution of the form, with proper fields (no 60th minute, month or day that is not there) and the time zone asked for. The day of the week, the number of leap seconds at any UTC instant since 1972 "
     "and the order of two instants are those of the instant, whatever the form, at midnight, at the ends of months and years and on leap days too.",
     ['histories', 'inputs'], 'every instant and every chain of conversions',
     "The tests convert a handful of dates in a single step each.",
     ['lsl/astro.py', 'lsl/common/mcs.py'],
     [('dates and zones', 'lsl/astro.py date, zonedate, date_to_zonedate, zonedate_to_date, get_date, get_julian_day, get_day_of_week'),
      ('scales', 'lsl/astro.py leap_secs, utc_to_tai, tai_to_utc, utc_to_tt, tt_to_tdb and friends'),
      ('MJD and MPM', 'lsl/common/mcs.py mjdmpm_to_datetime, datetime_to_mjdmpm')],
     technique='TLA+ model of the calendar, the leap seconds and the scales in exact integers, checked with TLC; its chains of conversions replayed on the real functions and judged by TLC',
     note='Exhaustive over seams of the calendar in the model; 2,500 chains on the code per quick run.',
     state=[('t', 'the instant', 'the value that is converted'), ('form', 'the form it is in', 'its type')])
prop('C17', 'Angles, positions and frames: the same direction in every form and frame',
     "An angle carried through degrees, radians, degrees/minutes/seconds, hours/minutes/seconds and seconds is the same angle in each, with proper fields, and sums, negation and comparison are those of the angle. A position "
     "takes coordinates that are in range, in every documented form, refuses others with a ValueError and stays as it was; one that came from another frame cannot be changed; copies have the same coordinates. A direction taken through any chain of J2000, B1950, precessed, "
     "galactic, ecliptic, horizontal and rectangular coordinates has the same coordinates each time it is in the same frame, and they are those of the sphere: altitude and azimuth by the sidereal time of the site, precession, separation and position angle, "
     "direction cosines, geodetic and ECEF coordinates. Rise, set and transit of an object are its next ones and at the horizon or the meridian, from every latitude, and None if it does not rise or set.",
     ['histories', 'inputs'], 'every angle and direction, every site and instant, and every chain of conversions',
     "The tests convert a few positions at one site in the northern hemisphere, one step at a time.",
     ['lsl/astro.py'],
     [('angles', 'lsl/astro.py dms, hms, deg_to_dms, deg_to_hms, add_hms and friends'),
      ('positions', 'lsl/astro.py hrz_posn, equ_posn, gal_posn, ecl_posn, geo_posn'),
      ('frames', 'lsl/astro.py get_hrz_from_equ, get_equ_from_hrz, get_gal_from_equ, get_ecl_from_equ, get_equ_prec, B1950_to_J2000 and their inverses'),
      ('separation', 'lsl/astro.py get_angular_separation, get_rel_posn_angle'), ('rise and set', 'lsl/astro.py get_object_rst')],
     technique='TLA+ model of angles in hundredths of a second of arc, of the ranges and the frames, with spherical trigonometry and sidereal time in integers, checked with TLC; its behaviours replayed on the real classes and judged by TLC',
     note='Exhaustive over the seams of the circle in the model; 1,500 walks on the code per quick run. Apparent positions are judged on their own, not in separations. The bodies of the solar system need an ephemeris that is not here.',
     state=[('objs', 'the positions', 'the position objects'), ('seen', 'the coordinates of a direction in each frame it has been in', 'what the conversions return')])
prop('C18', 'Data files are whole, come from the first or newest source, and are kept',
     "DataAccess.open and fetch_data_file give a data file by the first of these that has it whole: the copy kept before, the copy that came with the software, the first server, the second. A kept copy is looked after only when it is older than the refresh age, and is then replaced "
     "if, and only if, a newer version can be had, by that version. However a server fails - no connection, no answer, an error, a connection that ends early, a missing or improper header, a packed body - and wherever a process is killed, what is opened "
     "is a whole version of the file or the call fails with a RuntimeError; a part of a file is never taken for it, not in a later session either. download_file and check_url tell what was received, byte for byte and for the range asked for, or zeros.",
     ['histories', 'crash_points', 'inputs'], 'every history of versions, faults, waiting, killing and asking',
     "The tests fetch one file from the network, if there is one.",
     ['lsl/common/data_access.py'],
     [('lookup and refresh', 'lsl/common/data_access.py _DataAccess.fetch_data_file'), ('copies', 'lsl/common/data_access.py _local_copy_worker, _download_worker'),
      ('downloads', 'lsl/common/data_access.py download_file, check_url')],
     technique='TLA+ model of sources, faults, the steps of a fetch and crashes between them, checked with TLC; its histories replayed against real HTTP servers on the loopback, with processes killed, and judged by TLC',
     note='Exhaustive for three versions with one client that is killed and with two clients in the model; histories of 30 events with three files and two servers on the code.',
     state=[('kept', 'the kept copies', 'the data cache'), ('srv', 'the servers', 'the remote files'), ('loc', 'the copies that came with the software', 'lsl.common.paths.DATA')])
prop('C19', 'Telemetry counts what the user allows, loses no count and sends once',
     "While telemetry is on, every completed call of a tracked function, method, class, script or module of LSL is counted exactly once, from any thread, with what it returns or raises unchanged; while it is off (ignore() for the session, disable() for good and for later sessions, until enable()) nothing is "
     "counted and no upload is started, and ignore() does not change the setting. When a session ends its counts are on disk; counts that could not be written are kept and written later. An upload happens when a log is old, one at a time, tells the server every log there is, and removes those logs - and no "
     "other - only when the server has acknowledged. So, over any history of sessions side by side, ends, kills, full disks, bad logs and server faults, what the logs and the server hold together is what was counted: nothing is lost, and nothing is told twice unless an acknowledgement was lost.",
     ['histories', 'schedules', 'crash_points'], 'every history of sessions, settings, ends, kills and uploads',
     "The tests call tracked functions and look at nothing.",
     ['lsl/misc/telemetry/__init__.py', 'lsl/misc/_telemetry_send.py', 'lsl/misc/telemetry/__main__.py'],
     [('counting and consent', 'lsl/misc/telemetry/__init__.py _TelemetryClient'), ('upload', 'lsl/misc/_telemetry_send.py main'), ('decorators', 'lsl/misc/telemetry/__init__.py track_*')],
     technique='TLA+ model of sessions, logs and the upload, checked with TLC (conservation and consent); its histories replayed with real processes, a held or failing upload in the middle of a session\'s end and the other way around, and judged by TLC',
     note='Exhaustive for two sessions, one sender and two (thorough: three) calls in the model; histories of 24 events with three sessions on the code.',
     state=[('sess', 'the sessions: on or off, setting, what they counted', 'the telemetry client of each process'), ('logs', 'the logs', 'telemetry_*.log'), ('got', 'what the server was told', 'the uploads')])

prop('C20', 'What is written to DRX frames, VDIF frames and SDFITS files reads back as given',
     "A simulated DRX frame reads back with the beam, tuning, polarization, decimation, time offset, time tag, tuning word, flags and samples it was made with (samples to the nearest of sixteen levels, clipped, the given array left alone), writing a frame that was read gives the same bytes, and what no DRX frame "
     "can hold is refused with nothing written. The test signal is the frames of all beams, tunings and polarizations in order of time, on the exact time grid, each with its tone. A VDIF frame reads back with the station, bits, real or complex samples, sample rate and - for every day and every frame of "
     "a second, however the time is given and rounded - the half year, second and frame number of its time, so that the reader's time is the time given. An SDFITS file holds, whatever the order in which spectra were added, one row per time and beam in that order, with the time, exposure, and every spectrum at "
     "its own polarization and channel; what was not given is zero; and comments, history and keywords are there.",
     ['inputs', 'histories'], 'every set of frame parameters and samples, every time and every order of spectra',
     "The tests write a few frames and files with ordinary values at the time at which they run and read some fields back.",
     ['lsl/sim/drx.py', 'lsl/sim/ndp.py', 'lsl/writer/vdif.py', 'lsl/reader/vdif.py', 'lsl/writer/sdfits.py'],
     [('DRX frames', 'lsl/sim/drx.py SimFrame, frame_to_frame'), ('test signal', 'lsl/sim/ndp.py basic_signal'), ('VDIF frames', 'lsl/writer/vdif.py Frame'), ('VDIF times', 'lsl/reader/vdif.py FrameHeader.time'), ('SDFITS', 'lsl/writer/sdfits.py Sd')],
     technique='TLA+ model of the frame fields, the half-year calendar and the table of spectra, checked with TLC; parameters and histories generated from it are written and read back with the real code and judged by TLC',
     note='Exhaustive over sample levels, days 2000-2031 at steps and all orders of six spectra in the model; random parameters with seam values (half-year ends, leap-second half years, last frame of a second, 24-bit frame numbers) on the code.',
     state=[('day', 'the day of a frame', 'time given to the VDIF writer'), ('word', 'a sample', 'payload'), ('added', 'the spectra added so far', 'Sd.data')])

prop('C21', 'Values on the command line mean what they say, or are refused',
     "The conversions that every script uses for its arguments give, for any text, the value that the text stands for: whole and real numbers with their limits; frequencies and wavelengths with or without units, each from the other, and ranges of them in ascending order, a unit at the end counting for both; "
     "dates as MJD or calendar date and times as MPM or clock, each from the other; angles and lists of angles; lists of numbers and of baselines with ranges, all pairs of a pair of ranges, blanks and empty items ignored, 'all', '*', 'none' and nothing as words; lists of hosts and addresses with ranges. "
     "Any other text is refused with an argparse.ArgumentTypeError and nothing else: never a different value, and never another exception.",
     ['inputs'], 'every text',
     "The tests try a few texts of each kind.",
     ['lsl/misc/parser.py'],
     [('numbers', 'lsl/misc/parser.py positive_*'), ('frequencies', 'lsl/misc/parser.py frequency, wavelength and their ranges'), ('dates and times', 'lsl/misc/parser.py date, mjd, time, mpm'), ('lists', 'lsl/misc/parser.py csv_*_list')],
     technique='TLA+ grammar of the texts and their meaning, checked with TLC; every short text is enumerated from it and, with generated values in all forms, read with the real code and judged by TLC',
     note='Exhaustive over all texts of up to five characters of seven (thorough: six) and four of eight (five) for lists of numbers and baselines, in the model and on the code; random values and forms, good and bad, for the rest.',
     state=[('text', 'the text so far', 'the argument')])

prop('C22', 'Dispersion is undone and beams are formed with the right delays, on every sample',
     "dedispersion.delay is the cold plasma delay relative to the highest frequency (to infinite frequency for one alone). incoherent() moves every channel back by its delay in whole integrations, for any order of the channels, either sign of the dispersion measure and delays longer than the data; what wraps around is kept with 'wrap' and replaced by the fill value with 'fill'. "
     "coherent() gives, for a block of any length and any history of earlier calls, each sample once, dedispersed in a window with a quarter of it at either side, taken from what came before and comes next where the block ends, with its own time; only what cannot be known without neighbours is zero, so that blocks of a stream join without gaps; too few samples are refused. "
     "calc_delay is cable less geometric delay about the mean of the stands that are not outliers, for any angle type, and refuses pointings below the horizon or out of range. phase_and_sum gives, for each polarization that has any good antennas, time and channel, the mean over its good antennas of the signals turned by their delays, whatever the type and layout of the data. circularize gives L and R by the IAU or the opposite convention. None of these changes what it was given.",
     ['inputs', 'histories'], 'every spectrum, block, stream, array and pointing',
     "The tests recover one strong pulse and beamform one station's antennas in the zenith, and look mostly at shapes.",
     ['lsl/misc/dedispersion.py', 'lsl/misc/beamformer.py', 'lsl/misc/beamformer.cpp'],
     [('dispersion', 'lsl/misc/dedispersion.py delay, incoherent, get_coherent_sample_size, coherent'), ('delays', 'lsl/misc/beamformer.py calc_delay'), ('beams', 'lsl/misc/beamformer.py phase_and_sum and lsl/misc/beamformer.cpp BEngine'), ('circular', 'lsl/misc/beamformer.py circularize')],
     technique='TLA+ model of delays in exact integers (dispersion, windows over a block, quarter turns of phase), checked with TLC; generated spectra, blocks and arrays put through the real code and judged by TLC',
     note='All block lengths and neighbours for three window sizes in the model; random ones on the code, in one process so that what is cached from one call meets the next.',
     state=[('i', 'the window that is next', 'i in coherent()'), ('out', 'the window each sample was taken from', 'outD, outT')])

prop('C23', 'Log messages reach every place that asked for them, once, in order, and no other',
     "A message to the LSL logger, a note or, while warnings are captured, a warning of Python's (without its colours) is written, once and in the order in which it was said, to the default stream, the console, the log file and the queue of each ThreadedHandler that are on at that time and whose level lets it through, if the level of the logger and all of the active filters on the name let it through; nothing else is written, and no message is lost or repeated when several threads log at once. "
     "Turning a place on again replaces it, a change of log file is announced by a warning, 'a' keeps what a file has and 'w' does not, and turning a place off, removing a filter or handler that is not there changes nothing. A console or file that cannot be set up raises an error and leaves the logging as it was.",
     ['histories', 'schedules'], 'every history of settings and messages, and every interleaving of threads',
     "The tests turn one place on, say one message and look for it.",
     ['lsl/logger.py'],
     [('places', 'lsl/logger.py enable_console_logging, enable_file_logging, add_handler, ThreadedHandler'), ('filters', 'lsl/logger.py add_filter, remove_filter, clear_filters'), ('warnings', 'lsl/logger.py capture_warnings, _WarningHandler')],
     technique='TLA+ model of the settings and of what every place holds, checked with TLC; generated histories, with threads, played on the real logger and every place compared by TLC after each step',
     note='All histories of four steps of 40 in the model (thorough: five); 600 histories of 40 steps on the code (6000).',
     state=[('s', 'level, console, file, queues, filters, capture and what every place holds', 'LSL_LOGGER, _console_handler, _file_handler, _active_filters, LSL_LOG_QUEUE and the files')])

prop('C24', 'Frames are calculated with sample by sample and ordered by time',
     "For frames of every reader (DRX, DRX8, TBX, VDIF, COR and spectrometer), +, -, *, / and // with another frame of the same kind, a number or, except for spectra, an array give the result of that operation for each sample (for spectra: of all products of both tunings); the time, id, validity and products are those of the left operand. In place the frame itself is changed and returned; otherwise a new frame is made that shares nothing with the operands, and they stay as they were. "
     "What cannot be done - spectra that lack a product, // of complex samples, operands that are no numbers - raises an error and leaves every frame as it was. Frames compare with each other, with timestamps and with seconds by their time to the sample, all six comparisons agree, and sorting puts them in order of time and keeps the order of those at the same time.",
     ['histories', 'inputs'], 'every history of operations on every set of frames',
     "The tests do each operation once, on a frame and a number, and compare one sample or the first two frames of a file.",
     ['lsl/reader/base.py', 'lsl/reader/drspec.py'],
     [('arithmetic', 'lsl/reader/base.py FrameBase.__add__ .. __itruediv__'), ('spectra', 'lsl/reader/drspec.py Frame.__add__ .. __itruediv__'), ('order', 'lsl/reader/base.py FrameBase.__eq__, __lt__')],
     technique='TLA+ model of a set of frames under operations that make new frames or change one, checked with TLC; generated histories played on real frames of every reader, all of which TLC compares after each step',
     note='All histories of three steps of a small world in the model (thorough: four); 900 histories of 50 steps on the code (6000).',
     state=[('h', 'every frame: kind, time, id, validity, products and samples', 'Frame objects: header, payload._data or payload.XX0 and so on, valid')])
