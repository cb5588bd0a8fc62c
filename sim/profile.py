"""What each check runs: engines, number of seeds, what is real."""

REAL_TF = ['pylib/pc (all Python code the property concerns, unmodified)',
           'pylib/pc/custom_ops/custom_ops_tf.py',
           'TensorFlow 2.16 CPU kernels']
STUB_TF = ['thread scheduler (baton passed at every tensor operation and, in '
           'half of the concurrent runs, at every source line)',
           'outcome of tf.random draws (drawn adversarially from the plan)',
           'failing tensor operations (raised by the simulator in place of '
           'the operation)']
ASSUME_TF = ['context switches happen only at tensor operations and line '
             'boundaries of the repository code',
             'TensorFlow kernels themselves are correct and, with one intra- '
             'and inter-op thread, deterministic',
             'floating point comparisons allow for float32 rounding; pairs '
             'within 1e-4 of a radius or cell boundary may go either way']


SEARCH = dict(
    C01='sequences of accessor calls, shape changes and failing operations',
    C02='call histories with failing operations on up to two threads',
    C03='call histories on a shared grid with failing operations and threads',
    C04='call histories on a shared grid with failing operations and random '
    'choices',
    C05='random outcomes, failing operations and thread schedules',
    C06='call histories, failing operations and thread schedules',
    C07='call histories, cached values and failing operations',
    C08='call histories, failing operations and thread schedules',
    C09='histories of transposes and densities with failing operations',
    C10='random outcomes, call histories and failing operations',
    C11='call histories of layers on changing clouds with failing operations',
    C12='call histories with failing operations and threads',
    C13='the position and kind of failing operations inside call histories',
    C14='interleavings of two to four threads at operations and source lines',
    C15='file contents, arguments and the position of failing reads',
    C16='lists of files, arguments and the position of failing reads',
    C17='crash points, torn files and restarts of the dataset scripts',
    C18='histories of batch requests, epochs and failing operations',
    C19='thread schedules, stream delays, device properties, memory contents, '
    'failing allocations and invalid inputs of the ops on a simulated GPU',
    C20='call histories of blocks with failing operations',
    C21='random rotations and failing operations',
    C22='histories of compiled and eager calls with failures while building '
    'and executing graphs',
    C23='histories of calls, gradients and training steps with failing '
    'operations',
    C24='histories of calls, training steps, saves, restores, crashes and '
    'restarts with failing operations',
    C25='data sets, batch sizes, crash points, failing operations and restarts '
    'of complete runs of the dataset scripts',
    C26='histories of batches shown to shared layers, with failing operations '
    'and thread schedules',
    C27='histories of calls with arguments in different forms that the caller '
    'changes afterwards, with failing operations')
ORACLE = dict(
    C01='independent reference model of a batch of point lists',
    C02='brute force bounding boxes and cells', C03='brute force neighbors',
    C04='brute force neighbors', C05='subset, separation and coverage',
    C06='brute force cell means', C07='brute force kernel sums (float64)',
    C08='brute force sums (float64)',
    C09='brute force pairs and densities with a model of the cache',
    C10='validity of every level against the level before it',
    C11='float64 definition of each layer', C12='brute force reductions',
    C13='a twin on which the failed call was never made',
    C14='a twin that makes the same calls one after the other',
    C15='the table the file was written from',
    C16='the tables (or the mesh library) and a cloud built from the batch',
    C17='the source files; every restart must complete with their data',
    C18='the samples delivered so far in the epoch',
    C19='bounds, initialisation and barrier checks of the simulated device and '
    'brute force results (float64)',
    C20='float64 definition of the blocks', C21='geometry of the layouts',
    C22='eager calls of a twin that saw no graph and no failure',
    C23='numerical derivatives (float64) of the definition of each layer',
    C24='outputs and training steps recorded when the state was saved',
    C25='float64 reference of the training the scripts describe',
    C26='the result of the same element in another batch of the history',
    C27='the result for tensors; copies of the arguments')
NOTE = ('Seeded random search, no exhaustiveness: the property was not '
        'violated in any of the simulated executions of the real Python code '
        'on TensorFlow CPU kernels, with every result compared with the '
        'oracle. Trusts the oracle, TensorFlow kernels and that threads '
        'switch only at tensor operations and line boundaries.')



REAL_GPU = ['custom_ops/tfg_custom_ops: op kernels, shape functions and CUDA '
            'kernels of the working tree, compiled for the CPU']
STUB_GPU = ['GPU: blocks, threads, barriers, atomics, stream and device memory '
            'simulated (gpusim); warps are not in lock step',
            'TensorFlow C++ op framework (shim headers with the same '
            'interface)', 'allocations (can fail), clock, contents of '
            'unwritten memory, device properties']
ASSUME_GPU = ['the three CUDA language extensions used are rewritten by '
              'sim/gpubuild.py, everything else is compiled as it is',
              'threads switch at memory accesses, atomics and barriers; memory '
              'is sequentially consistent', 'warp size 32']
NOTE_GPU = (' A part of the runs executes the real CUDA sources on a simulated '
            'GPU in place of the Python fallback.')


def tf(prop, quick, **kw):
  d = dict(backends=['tf'], weights=[1], quick=(quick, 240),
           thorough=(10**6, 700), real=REAL_TF, stub=STUB_TF,
           assumptions=ASSUME_TF, search=SEARCH[prop], oracle=ORACLE[prop],
           note=NOTE)
  d.update(kw)
  return d


def both(prop, quick, weights, **kw):
  """Python fallback and, for part of the seeds, CUDA ops."""
  return tf(prop, quick, backends=['tf', 'gpu'], weights=weights,
            real=REAL_TF + REAL_GPU, stub=STUB_TF + STUB_GPU,
            assumptions=ASSUME_TF + ASSUME_GPU, note=NOTE + NOTE_GPU, **kw)


RUNS = dict(C01=3000, C13=1000, C14=1000, C21=3000)
PROFILE = {p: tf(p, n) for p, n in RUNS.items()}
# runs and share of the fallback and of the CUDA ops
BOTH = dict(C02=(2800, 6, 2), C03=(2400, 5, 3), C04=(2400, 5, 3),
            C05=(2000, 5, 3), C06=(2400, 5, 3), C07=(2000, 5, 3),
            C08=(2400, 5, 3), C09=(2000, 6, 2), C10=(2000, 6, 2),
            C11=(1800, 7, 1), C12=(2400, 7, 1), C20=(960, 7, 1),
            C23=(1000, 7, 1), C26=(800, 7, 1), C27=(1200, 7, 1))
for p, (n, a, b) in BOTH.items():
  PROFILE[p] = both(p, n, [a, b])
PROFILE['C19'] = tf(
    'C19', 14000, backends=['gpu'], needs_gpu=True, real=REAL_GPU,
    stub=STUB_GPU, assumptions=ASSUME_GPU,
    note='Seeded random search, no exhaustiveness: the CUDA sources of the '
    'working tree ran on a simulated GPU with a seeded scheduler; every access '
    'was checked and every result compared with the oracle. Trusts the '
    'simulated device and the shim of the TensorFlow op interface; weak memory '
    'and lock step effects of real hardware are not simulated.')

STUB_IO = ['tf.io.gfile and open() (real files in a scratch directory, every '
           'call of which can fail)', 'failing tensor operations',
           'thread scheduler']
PROFILE['C15'] = tf('C15', 4000, real=['pylib/io/points.py', 'TensorFlow 2.16 '
                    'gfile and string conversion', 'scratch files'],
                    stub=STUB_IO)
PROFILE['C16'] = tf('C16', 1600, real=['pylib/io/points.py',
                    'pylib/pc/PointCloud.py', 'tensorflow_graphics mesh loader '
                    'and trimesh', 'scratch files'],
                    stub=STUB_IO + ['the missing methods of the resolver class '
                    'of tensorflow_graphics, without which it cannot read any '
                    'mesh with the installed trimesh'])
PROFILE['C17'] = tf('C17', 3000, real=['data preparation of modelnet40.py and '
                    'modelnet40_small.py', 'pylib/io/points.py',
                    'h5py and HDF5 on files in a scratch directory'],
                    stub=['data_paths', 'process life time (a crash ends the '
                          'run at a source line or storage call)',
                          'content of files that were open for writing at the '
                          'crash', 'failing storage calls',
                          'the constants for sizes, scaled down'],
                    assumptions=['a killed process loses nothing it has closed '
                                 'or renamed (no power loss)',
                                 'the scripts keep their constants between '
                                 'runs', 'one process at a time prepares the '
                                 'data'])
PROFILE['C18'] = tf('C18', 3000, real=['modelnet_data_generator of both '
                    'scripts', 'numpy, Keras Sequence'],
                    stub=['outcome of np.random (seeded by the plan)',
                          'failing tensor operations', 'thread scheduler'],
                    assumptions=['several workers only use indexed access',
                                 'the epoch does not end while requests are '
                                 'running'])
PROFILE['C22'] = tf('C22', 250, real=['pylib/pc (all Python code the property '
                    'concerns, unmodified)', 'models of modelnet40.py and '
                    'modelnet40_small.py', 'TensorFlow 2.16 tracing, graph '
                    'rewriting and CPU execution (one thread)'],
                    stub=['failing operations while tracing and executing'],
                    assumptions=['operations inside of an executing graph do '
                                 'not fail (only the call as a whole)',
                                 'graph rewriting changes results by rounding '
                                 'only'])
PROFILE['C24'] = tf('C24', 230, real=['pylib/pc/layers (unmodified)',
                    'models of modelnet40.py and modelnet40_small.py',
                    'TensorFlow checkpoints, Keras weight files in a scratch '
                    'directory'],
                    stub=['process life time (a crash drops all objects, the '
                          'next ones are built with other random numbers)',
                          'failing tensor operations, also of saving and '
                          'restoring'],
                    assumptions=['a killed process loses nothing it has written '
                                 '(no power loss)',
                                 'TensorFlow saves and restores the variables '
                                 'an object tracks'])
PROFILE['C25'] = tf('C25', 240, real=['all statements of modelnet40.py and '
                    'modelnet40_small.py except the network of most runs',
                    'pylib/io/points.py', 'Keras optimizer, schedule, loss and '
                    'metrics', 'HDF5 and weight files in a scratch directory'],
                    stub=['the network (a linear classifier that records its '
                          'calls; in some runs the network of the script '
                          'reduced to one level)', 'data_paths',
                          'the constants for sizes, scaled down',
                          'process life time (a crash ends the run at a source '
                          'line, storage call or tensor operation)',
                          'failing tensor operations and storage calls'],
                    assumptions=['a killed process loses nothing it has written '
                                 '(no power loss)',
                                 'the data set holds at least one batch'])
