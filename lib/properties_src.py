import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':a,'where':b} for a,b in mech],
                 'state':[{'name':a,'meaning':b,'where':c} for a,b,c in (state or [])],
                 'observe_at':observe or [], 'hook_needed':hook}})
prop('C01','A seeded simulation is a function of the seed and the calls since, only',
 'After seed(s), every simulate and advanced.simulate call, in one, two or three dimensions, returns exactly the field that the seed, the arguments of the simulate calls made since and the variogram determine: the circulant-embedding field of that variogram on the padded grid, driven by the documented random stream, with nx*ny*nz finite values in Fortran order. '
 'Nothing else in the history changes it: not queries (seed(), simulation_size, corr, quote), not creating or dropping variograms, not rejected calls, not earlier seeds, the clock, the contents of the heap, or what other processes do. '
 'A restarted process that repeats the calls gets the same bytes, and a forked process continues from its parent\'s state without affecting it.',
 ['histories','inputs','crash_points','configurations'],
 'every interleaved sequence of module calls in any number of processes, with crashes, restarts and forks between any two calls, every seed, variogram, grid, padding and smoothing, every clock value and every content of freshly allocated memory',
 'The tests compare a few fields with stored reference files right after seeding, in one process and with one clean heap; state that leaks between calls, uninitialised memory, parameter combinations, and restarts and forks are not sampled.',
 ['src/gaussfft.cpp','src/gaussfftinterface.cpp','src/nrlib/random/random.cpp','src/nrlib/random/randomgenerator.cpp','src/nrlib/variogram/gaussianfield.cpp','src/nrlib/variogram/fftcovgrid.cpp','src/nrlib/variogram/variogram.cpp','src/nrlib/fft/fft.hpp','src/nrlib/fft/fftgrid2d.hpp','src/nrlib/fft/fftgrid3d.hpp'],
 [('one process-wide generator advanced only by simulate','NRLib::Random in random.cpp'),('per-field generator seeded from it (1D, 2D)','Simulate1DGaussianField / Simulate2DGaussianField in gaussianfield.cpp'),('covariance grid, forward FFT, square root, noise, inverse FFT','FFTCovGrid*::SimulateFields in fftcovgrid.cpp')],
 [('random stream','position in the stream since the last seed','NRLib::Random::generator_'),('start seed','the seed reported by seed()','NRLib::Random::start_seed_')],
 ['return values of every module function'])
prop('C02','An unseeded process seeds itself once, from the clock, and reports the seed',
 'A process that simulates without having been seeded seeds itself at the first simulate call, and never again, with a value that depends on the current time in whole seconds and on nothing else, so that different seconds give different seeds and processes starting in the same second get the same one. '
 'seed() raises RuntimeError until a seed has been set or chosen, and from then on returns exactly the value that reproduces the fields simulated so far when it is given back to seed(). '
 'Clock steps backwards or forwards after that first call change nothing.',
 ['histories','crash_points','configurations','fault_sequences'],
 'every sequence of calls, process starts, crashes and forks, under every clock history: ticks between and inside calls, jumps back and forward, skew between processes, the epoch and the 32-bit boundaries',
 'The tests see one real clock that they cannot move, and compare at most two calls of one process; they cannot place two processes in one second, step the clock back or restart a process.',
 ['src/gaussfft.cpp','src/nrlib/random/random.cpp','src/nrlib/random/randomgenerator.cpp'],
 [('automatic initialisation on first use','GaussFFT::SimulateWithAdvancedSettings in gaussfft.cpp'),('seed from time(NULL)','RandomGenerator::Initialize() / Random::Initialize()')],
 [('seeded','whether a seed exists','NRLib::Random::is_initialized_')],
 ['seed()','fields returned by simulate'])
prop('C03','Calls from concurrent threads are linearizable',
 'When several threads of one process call the module at the same time, every call returns what it would have returned had all calls been executed one at a time in some order that respects the order of non-overlapping calls: each simulated field is a correct field from one position of one seed\'s stream, no part of the stream is used twice or lost, and seed() reports the seed in force. '
 'An unseeded process seeds itself only once however many threads start simulating together. '
 'Sharing one variogram object between threads changes no result, and no schedule deadlocks or ends the process.',
 ['schedules','histories','inputs'],
 'every interleaving, at the granularity of single memory accesses of the library, of two to four threads with their own call sequences, sharing variograms or not, seeded or not',
 'No test starts a thread, and a test that did would see the few interleavings the operating system happens to produce; the module declares that it needs no interpreter lock, so overlapping calls are real.',
 ['src/gaussfft.cpp','src/gaussfftinterface.cpp','src/nrlib/random/random.cpp','src/nrlib/variogram/fftcovgrid.cpp','src/nrlib/variogram/variogram.cpp','src/nrlib/fft/fft.cpp'],
 [('lock around the process-wide generator','random_mutex in gaussfft.cpp'),('everything else is local to a call or constant','FFTCovGrid*, FFTGrid*, Variogram')],
 [('process-wide generator','shared between all threads','NRLib::Random')],
 ['the recorded history of calls and results'])
prop('C04','A failing allocation or FFT plan is an exception and damages nothing',
 'When memory for an object or an FFT buffer cannot be had, or the FFT library cannot make a plan, at any point of any call, that call either raises a Python exception or returns the correct result; the process survives. '
 'Every later call behaves normally: seed() still reports a seed that was really set, and after the next seed(s) every result is exactly the one determined by s. '
 'Calls with wrong types, wrong arguments or impossible sizes are rejected by an exception and change nothing.',
 ['fault_sequences','histories','inputs'],
 'every single and repeated failure of object allocation, FFT buffer allocation and plan creation, at every point of every call of every call history',
 'The tests never make an allocation or a plan fail, so none of the error paths is executed.',
 ['src/gaussfft.cpp','src/nrlib/fft/fft.hpp','src/nrlib/fft/fftgrid2d.hpp','src/nrlib/fft/fftgrid3d.hpp','src/nrlib/variogram/gaussianfield.cpp','src/nrlib/variogram/fftcovgrid.cpp','src/nrlib/random/random.cpp'],
 [('checked FFT allocation and planning','fft.hpp'),('locks and buffers released by destructors','gaussfft.cpp, fftgrid*.hpp')],
 None,['exceptions raised and results returned after a failure','process liveness'])
prop('C05','No call leaks memory, whether it succeeds or fails',
 'Repeating any call (seeding, creating and dropping variograms, queries, simulations of any dimension and size) any number of times does not make the memory held by the process grow, beyond what the first calls cache. '
 'The same holds for calls that fail because memory or an FFT plan could not be had or because their arguments are wrong.',
 ['histories','fault_sequences','inputs'],
 'every call, repeated, with or without an allocation or plan failure at any point of each repetition, inside any history',
 'The tests look at results only; none measures memory, and no failing path is executed.',
 ['src/gaussfft.cpp','src/gaussfftinterface.cpp','src/nrlib/variogram/gaussianfield.cpp','src/nrlib/variogram/fftcovgrid.cpp','src/nrlib/fft/fftgrid2d.hpp','src/nrlib/fft/fftgrid3d.hpp','src/nrlib/random/random.cpp'],
 [('ownership by local objects and destructors','FFTGrid*, FFTCovGrid*, RandomGenerator')],
 None,['live C++ blocks, FFT buffers, FFT plans and heap bytes after each repetition'])
prop('C06','Saving a file either reports an error or leaves the complete file',
 'Saving a surface (Irap classic, rotated Irap, STORM binary), a STORM grid or facies grid (text or binary, with the surfaces saved beside it), an SGRI grid, a Crava grid, a SEG-Y cube (trace by trace, as a whole, or made of a grid), an Eclipse grid (one file or several, with refinements and faults), an RMS, LAS or Norsar well, a point set, a wavelet, an XML document, a trend, kriging data, a covariance grid, a matrix or vector, or a raw binary array, reports success only if everything was written: a disk that fills up, fails, cuts a write short or fails only when the file is closed, at any byte of any of the files, is reported (by an exception, or by the result of the call for XML). '
 'What was reported as saved is on the disk the moment the call returns, so that a process killed right afterwards loses nothing, and reading it back gives the object that was saved: same dimensions, coordinates, names and values to the precision of the format, whatever was in the file before and also when the object saved was itself loaded from a file. '
 'A short write or an interrupted system call is retried and is no error, memory that runs out in the middle of a save is reported like a failing disk, no failing save ends or hangs the process, and no save leaves a file descriptor open.',
 ['fault_sequences','crash_points','histories','inputs'],
 'every object, every older content of the files, every failing or short open, write or close at every byte of every file, every failing allocation, and a kill of the process after every call',
 'The tests write to a healthy disk; no test makes a write or a close fail, kills the writer, or overwrites a longer older file.',
 ['src/nrlib/iotools/fileio.cpp','src/nrlib/iotools/fileio.hpp','src/nrlib/iotools/bigfile.cpp','src/nrlib/surface/surfaceio.hpp','src/nrlib/stormgrid/stormcontgrid.cpp','src/nrlib/stormgrid/stormfaciesgrid.cpp','src/nrlib/volume/volume.cpp','src/nrlib/segy/segy.cpp','src/nrlib/well/rmswell.cpp','src/nrlib/well/laswell.cpp','src/nrlib/pointset/pointset.cpp','src/nrlib/wavelet/waveletio.cpp','src/nrlib/flens/nrlib_flens.cpp','src/nrlib/eclipsegrid/eclipsegrid.cpp','src/nrlib/tinyxml/tinyxml.cpp','src/nrlib/trend/trendkit.cpp','src/nrlib/well/norsarwell.cpp'],
 [('open for writing, typed output with endianess, checked close','fileio.hpp / fileio.cpp'),('one writer per format','WriteToFile and its relatives in each module')],
 None,['return or exception of each save','bytes on the simulated disk','open descriptors'])
prop('C07','A loaded surface or grid is the one that was saved, or the load fails',
 'Loading a surface (Irap classic, rotated Irap, STORM binary, SGRI with one or several surfaces), a STORM grid or facies grid with its surfaces, or an SGRI grid, into a new object or one that held something else, gives exactly the object of one completed save, or raises an exception. '
 'A file that is cut at any byte, belongs to a save that crashed or failed half-way, has lost one of its companion files, or sits on a disk that fails or delivers few bytes at a time, or is loaded while memory runs out, never gives an object with missing, invented, default or mixed values, never ends the process and never hangs it; short reads and interrupted system calls on an intact file change nothing. '
 'After a failed load the same process can load and save other files as before, and a failed load leaves no file descriptor open.',
 ['fault_sequences','crash_points','histories','inputs'],
 'every object, every cut of every file, every crash point and failing write of the save before, every failing, short or interrupted read and every failing allocation, in any order within any number of process lives',
 'The tests read intact files from a healthy disk; no test reads a file whose writer crashed or a disk that fails.',
 ['src/nrlib/iotools/fileio.cpp','src/nrlib/iotools/fileio.hpp','src/nrlib/surface/surfaceio.hpp','src/nrlib/surface/surfaceio.cpp','src/nrlib/surface/regularsurface.hpp','src/nrlib/surface/regularsurfacerotated.hpp','src/nrlib/volume/volume.cpp','src/nrlib/stormgrid/stormcontgrid.cpp','src/nrlib/stormgrid/stormfaciesgrid.cpp'],
 [('token and binary readers that throw at the end of the file','fileio.hpp / fileio.cpp'),('check that nothing follows','CheckEndOfFile'),('surfaces of a volume owned until the load succeeds','Volume::ReadVolumeFromFile')],
 None,['object or exception of each load','process liveness'])
prop('C08','SEG-Y traces and raw binary arrays are read as written or not at all',
 'Every trace read from a SEG-Y file, written by this library or by another program (IBM or IEEE floats, 16- or 32-bit integers, any coordinate scale, standard or given header places), has exactly the coordinates (cut to the unit of the coordinate scale), inline, crossline, sample interval and samples with which that trace was written, whether traces are read one after the other, all at once, inside a volume or by inline and crossline, whatever the angle of the survey and the order of its lines, and traces come in the order written with none skipped, repeated or invented. '
 'A file cut at any byte, or left by a crashed or failed writer, gives at most the traces it completely contains; a disk that fails while reading, or memory that runs out, is an exception and not a shorter cube. '
 'Binary arrays of 16- and 32-bit integers, floats and doubles in either byte order, and IBM floats that can be represented, written and read through ordinary streams or through BigFile, come back bit for bit, or the read raises an exception; they are never filled up with old or zero values. '
 'No such file ends or hangs the process, and short reads and interrupted system calls change nothing.',
 ['fault_sequences','crash_points','histories','inputs'],
 'every cube and array, every cut, crash point, failing write before and failing, short or interrupted read, and every failing allocation',
 'The tests read intact arrays only, and no SEG-Y file is read from a failing disk or after a crashed writer.',
 ['src/nrlib/segy/segy.cpp','src/nrlib/segy/segytrace.cpp','src/nrlib/segy/traceheader.cpp','src/nrlib/segy/commonheaders.cpp','src/nrlib/iotools/bigfile.cpp','src/nrlib/iotools/fileio.hpp','src/nrlib/iotools/fileio.cpp'],
 [('number of traces from the file size','SegY constructor'),('trace by trace reading','SegY::ReadTrace'),('counted reads','BigFile::read, ReadBinary*')],
 None,['traces and arrays returned, exceptions','process liveness'])
prop('C09','Loaded wells, points, wavelets and matrices contain nothing but what was saved',
 'Loading an intact RMS well, LAS well (of this library or of another program), point set (general XYZ, Roxar text, RMS internal points, Jason horizon), wavelet, matrix or vector gives exactly the saved object. '
 'If the file was cut or its writer crashed, the load raises an exception, or, for formats that are a list of text records without an end mark, gives the leading records of the saved object, only the very last number of which may be shortened by the cut; it never gives other records, other names, default values in place of records, or a mixture of two saves. '
 'A disk that fails or memory that runs out while reading is an exception, never a shorter or different object. No such file or fault ends or hangs the process.',
 ['fault_sequences','crash_points','histories','inputs'],
 'every object, every cut, every crash point and failing write of the save before, every failing, short or interrupted read and every failing allocation, in any order within any number of process lives',
 'The tests read intact files from a healthy disk.',
 ['src/nrlib/well/rmswell.cpp','src/nrlib/well/laswell.cpp','src/nrlib/well/well.cpp','src/nrlib/pointset/pointset.cpp','src/nrlib/wavelet/waveletio.cpp','src/nrlib/wavelet/wavelet.cpp','src/nrlib/flens/nrlib_flens.cpp','src/nrlib/iotools/fileio.cpp','src/nrlib/iotools/fileio.hpp','src/nrlib/iotools/stringtools.cpp'],
 [('line and token readers','fileio.cpp: GetNextToken, ReadNextToken, SkipComments, GetNextNonEmptyLine'),('record readers','RMSWell, LasWell, PointSet, ReadMatrixFromFile')],
 None,['object or exception of each load','process liveness'])
prop('C10','A checkpointed random stream continues exactly, across crashes and full disks',
 'Random::Initialize(seed_file) takes the seed from the file, reports it as the start seed, and every uniform, normal and integer draw after it is that of the generator for this seed; Random::WriteSeedToFile then draws one number from the stream and makes it the seed in that file, so that a process started later from the file continues with the stream which that number determines, however the writer ended. '
 'Whatever fails while the seed file is written (full disk, failing open, write or close, crash at any byte), the file afterwards holds either the previous seed or the new one, complete, never a part of one or nothing; the failure is reported by an exception, and the stream in memory goes on as if the checkpoint had been taken or not been asked for. '
 'A seed file that is missing, empty, not a number or unreadable is an exception that leaves the seed and the stream in force as they were, not a made-up seed.',
 ['fault_sequences','crash_points','histories'],
 'every history of seeding, drawing, checkpointing and restarting, with a crash or a disk fault at every byte and call',
 'No test writes a seed file, let alone one that fails half-way.',
 ['src/nrlib/random/random.cpp','src/nrlib/random/randomgenerator.cpp','src/nrlib/random/random.hpp'],
 [('new file written beside the old one and renamed over it','Random::WriteSeedToFile'),('seed file read at start','Random::Initialize(seed_file)')],
 [('seed file','the only state that survives a crash','Random::seed_file_')],
 ['draws, seeds reported, exceptions, bytes of the seed file'])
prop('C11','Every log message reaches the streams that asked for it, once and in order',
 'A message given to LogKit reaches each log file and screen stream whose level (or level for the phase in force) includes the level of the message, exactly once, in the order of the calls, with the prefix and text the call determines, and no other stream; a message that returned from the call is in the file even if the process is killed right afterwards. '
 'With buffering on, log files opened later first get the messages since buffering started that they would have received, in order. '
 'Message counters count every message of each level. A full or failing disk under one log file never raises an exception into the program, ends it, or takes messages from the other streams.',
 ['histories','fault_sequences','crash_points','inputs'],
 'every history of setting screen and file logs, starting and ending buffering, messages of every level, phase and length, and ending the log, with a kill or disk fault at any point',
 'The tests do not use the log at all.',
 ['src/nrlib/iotools/logkit.cpp','src/nrlib/iotools/logkit.hpp','src/nrlib/iotools/logstream.cpp','src/nrlib/iotools/logstream.hpp'],
 [('selection by level and phase','LogKit::LogMessage / SendToBuffer'),('flush after every message','LogStream'),('buffer of messages','LogKit::buffer_, DumpBuffer')],
 [('streams','open logs with their levels','LogKit::logstreams_')],
 ['bytes of each log file and screen stream after each call'])
#--- not applicable
prop('C12','Loaded Eclipse grids, XML, tables, trends are as saved, or the load fails',
 'Loading an Eclipse grid (single file, or geometry, activity and parameters in files of their own, with Cartesian refinements and faults), an XML document, a column table, a 1D, 2D or 3D trend (text or binary), a Landmark, Strata or Syntool wavelet or a Norsar well gives exactly what one completed save or file contains, value for value to the precision of the format, or reports an error. '
 'A file that is cut at any byte, left behind by a crashed or failed writer, read from a disk that fails or delivers few bytes at a time, or loaded while memory runs out, never gives missing, invented, default or mixed values where the format states how many there are, never makes the reader loop for ever, allocate without bound, read outside its memory or end the process; short reads and interrupted system calls on an intact file change nothing. '
 'After a failed load the same process can load and save other files as before, and no load leaves a file descriptor open.',
 ['fault_sequences','crash_points','histories','inputs'],
 'every object, every cut of every file, every crash point and failing write of the save before, every failing, short or interrupted read and every failing allocation, in any order within any number of process lives',
 'The tests of these formats read a few intact files, or do not exist; no test reads a cut file or a disk that fails.',
 ['src/nrlib/eclipsegrid/eclipsegrid.cpp','src/nrlib/eclipsegrid/eclipsegeometry.cpp','src/nrlib/eclipsegrid/eclipsetools.cpp','src/nrlib/eclipsegrid/eclipsecarfin.cpp','src/nrlib/eclipsegrid/eclipsefault.cpp','src/nrlib/tinyxml/tinyxml.cpp','src/nrlib/tinyxml/tinyxmlparser.cpp','src/nrlib/iotools/tabularfile.cpp','src/nrlib/trend/trendkit.cpp','src/nrlib/wavelet/waveletio.cpp','src/nrlib/well/norsarwell.cpp'],
 [('keyword reader and number buffers of the Eclipse format','EclipseGrid::ReadFromFile, ReadParameterBuffer'),('document errors','TiXmlDocument::LoadFile / Parse'),('row and column counts','TabularFile::ReadFromFile, ReadTrend*')],
 None,['object or error of each load','process liveness','open descriptors'])
prop('N01','Simulated fields have the statistics of their variogram',
 'Over many seeds, fields simulated with enough padding have mean zero, variance one and the correlation of the variogram at every lag, in every direction.',
 ['inputs'],'every variogram, grid and sample size','The tests estimate the statistics of a few variograms with wide tolerances.',
 ['src/nrlib/variogram/fftcovgrid.cpp','src/nrlib/variogram/gaussianfield.cpp'],[('circulant embedding','fftcovgrid.cpp')])
prop('N02','Geometry, spline, kriging and statistics routines compute what they document',
 'The numerical routines of the library that neither read nor write files and keep no state (geometry, splines, kriging, distributions, FFT padding sizes, the Python estimation utilities) return the documented mathematical result for every valid argument.',
 ['inputs'],'every valid argument','The tests sample a handful of arguments.',
 ['src/nrlib/geometry','src/nrlib/math','src/nrlib/statistics','gaussianfft/util'],[('pure functions','the files named')])
prop('N03','Numerically invalid grid arguments are rejected with an exception',
 'Zero, negative or non-finite cell sizes and ranges, a missing variogram, and depth cells without a depth size are rejected by an exception rather than by undefined behaviour.',
 ['inputs'],'every argument value','The tests pass valid arguments.',
 ['src/gaussfft.cpp','src/gaussfftinterface.cpp'],[('none','GaussFFT::SimulateWithAdvancedSettings')])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
