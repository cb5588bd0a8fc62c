"""Writes properties.jsonl (kept as a program so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

PC='pylib/pc/PointCloud.py'; GR='pylib/pc/Grid.py'; NB='pylib/pc/Neighborhood.py'; PH='pylib/pc/PointHierarchy.py'
SA='pylib/pc/sampling.py'; UT='pylib/pc/utils.py'; TFO='pylib/pc/custom_ops/custom_ops_tf.py'; WR='pylib/pc/custom_ops/custom_ops_wrapper.py'
L='pylib/pc/layers/'; CO='custom_ops/tfg_custom_ops/'; IO='pylib/io/points.py'

prop('C01','Every representation of a batched point cloud holds the same content',
 'A point cloud built from padded points with sizes, from flat points with batch ids in any order, or from flat points with sizes gives back exactly the points of each batch element, in their given order and in the right element, through every accessor: per-element points (by index or multi-index), sizes (one per element, zero for empty ones), zero-padded points of the default or requested width, and padding of any per-point features followed by flattening them again. This holds after every sequence of accessor calls and batch-shape changes (including resetting the shape), whatever widths earlier calls asked for and whichever earlier calls failed. An element index outside the batch raises an IndexError and an incompatible batch shape raises without changing anything observable.',
 ['inputs','histories','fault_sequences'],
 'All clouds (dimension, batch shape, empty elements, unsorted ids), all sequences of accessor/shape calls on one object, all points at which one of these calls can fail.',
 'The tests construct three fixed-size clouds and call each accessor once on a fresh object; no test uses an object after a second call, a shape reset, an empty batch element or a failed call.',
 [PC,UT],
 [('padding/flattening and lazily created unflatten method',PC+' get_unflatten/_init_from_padded'),('lazily computed sizes',PC+' get_sizes'),('batch shape change',PC+' set_batch_shape'),('feature flattening',UT+' _flatten_features')],
 [('_sizes','cached element sizes',PC),('_unflatten','cached padding method',PC),('_batch_shape/_get_segment_id','batch shape and element lookup',PC)],
 ['PointCloud.get_points','PointCloud.get_sizes','PointCloud.get_unflatten','PointCloud.get_AABB().get_diameter'])

prop('C02','Bounding boxes, cell keys and the cell index describe the cloud exactly',
 'The bounding box of every batch element is the box spanned by its points and its diameter has the batch shape. Every point is assigned the key of the cell it lies in (points on the upper face belong to the last cell), keys of different batch elements never coincide, and the sorted order, points, batch ids and keys of a grid are one and the same permutation of the cloud. The cell index of a grid lists, for each two-dimensional cell column, exactly the contiguous range of the points in it and an empty range for an empty column, so that the ranges partition the cloud.',
 ['inputs','histories','schedules','configurations'],
 'All clouds, cell sizes and dimensions; every order of first use of the lazily built parts; on the GPU every interleaving of the threads, every grid/block configuration of the device and any content of unwritten memory.',
 'Tests use uniform random points in [0,1] away from cell faces, at most a few sizes, and run only the CPU path; the GPU kernels are never executed, so no thread schedule or device configuration is covered.',
 [PC,GR,TFO,WR,CO+'compute_keys',CO+'build_grid_ds',CO+'shared/cc/kernels/grid_utils.h'],
 [('bounding box by segment min/max',PC+' _AABB'),('cell keys',TFO+' compute_keys_tf; '+CO+'compute_keys'),('sort by key',GR+' __init__'),('range structure',TFO+' build_grid_ds_tf; '+CO+'build_grid_ds')],
 [('_fast_DS','lazily built cell ranges',GR)],
 ['Grid sorted keys/points/indices','Grid.get_DS','AABB.get_diameter'])

prop('C03','Neighbor search returns exactly the points within the radius',
 'The neighborhood of a cloud lists for every center exactly the points of the same batch element whose distance, measured per dimension relative to the radius, is below the radius: none missing, none repeated, none from another element. The ranges are the running totals of the neighbors per center, entries are grouped by center in order, and ids refer to the original or to the cell-sorted points as requested. This holds for any radius not larger than the cell size, any centers (also outside the bounding box of the points, or none), any dimension, and any previous use of the same grid.',
 ['inputs','histories','schedules','configurations'],
 'All point sets, centers, radii and cell sizes; all histories of a shared grid; all GPU thread interleavings, atomics orders and device configurations.',
 'The tests check grids of equidistant points or only that found neighbors are correct (not that none is missing), on one freshly built grid; the GPU pipeline (count, scan, store) never runs.',
 [NB,GR,TFO,WR,CO+'find_neighbors'],
 [('search over the 9 adjacent cell columns',TFO+' find_neighbors_tf'),('range search, count, prefix sum, store with atomics',CO+'find_neighbors'),('translation to original ids',NB+' __init__, compute_neighborhoods')],
 [('_samples_neigh_ranges','running totals',NB),('_neighbors/_original_neigh_ids','pairs',NB)],
 ['Neighborhood','compute_neighborhoods'])

prop('C04','A neighbor limit is respected and filled for every center',
 'With a limit of k neighbors per center, every center gets exactly min(k, number of true neighbors) neighbors, all of them true neighbors of that center and all different. No other center is affected, and a limit of zero means no limit. This holds for every outcome of the random choice and every schedule.',
 ['inputs','schedules','configurations'],
 'All inputs and limits, all random seeds of the choice, all GPU interleavings of the counter increments.',
 'No test uses a limit at all.',
 [NB,TFO,CO+'find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc',CO+'find_neighbors/cc/ops/find_neighbors_ops.cpp'],
 [('limit in the fallback',TFO+' find_neighbors_tf'),('reservoir style replacement with atomics',CO+'find_neighbors store_neighbors_limited')],
 [('per center counters','slots used so far',CO+'find_neighbors')],
 ['Neighborhood(max_neighbors=k)'])

prop('C05','Poisson disk sampling separates and covers the cloud for every random outcome',
 'The Poisson disk sample of a cloud is a subset of its points, at the indices it reports, in the right batch element, in which no two points of an element are neighbors (closer than the radius) and every point of the cloud has a sampled point within the radius. So every non-empty element keeps at least one point. Both ways of asking for it (by mode and by the dedicated function, from a radius or a neighborhood) give such a sample, for every random outcome and every schedule.',
 ['inputs','schedules','configurations'],
 'All clouds and radii, all outcomes of the random draws, all GPU interleavings within and between the passes.',
 'The CPU tests only bound the smallest distance from above, or expect one exact count that only holds for one visiting order; random outcomes and GPU schedules are not controlled.',
 [SA,TFO,CO+'sampling',CO+'find_neighbors/cc/kernels/scan_alg_kernels.cu.cc'],
 [('sequential random dart throwing',TFO+' sampling_tf'),('2^D coloured cell passes',CO+'sampling/cc/kernels/count_sampling_pd_kernels.cu.cc'),('modes',SA)],
 [],['sample','poisson_disk_sampling','PointHierarchy'])

prop('C06','Cell average sampling gives one mean point per occupied cell',
 'Cell average sampling returns for every occupied cell of every batch element exactly one point, the mean of the points in that cell, labelled with that element, and nothing else. Both ways of asking for it (by mode and by the dedicated function, from cell sizes or from a grid) agree, for every schedule.',
 ['inputs','schedules','configurations'],
 'All clouds and cell sizes, all GPU interleavings and device configurations.',
 'The test checks that expected means occur among the results, not that there are no extra or mislabelled points; the GPU kernels never run.',
 [SA,TFO,CO+'sampling'],
 [('segment mean by key',TFO+' sampling_tf'),('unique keys, scan, average kernels',CO+'sampling')],[],['sample','cell_average_sampling','PointHierarchy'])

prop('C07','Densities are the kernel density estimate, normalised only on request',
 'The density of a neighbor is the Gaussian kernel density estimate over the points of its own batch element within the radius, with the bandwidth relative to the radius per dimension, the same for every center it belongs to; with normalisation it is divided by the size of the neighborhood, without a density estimate it is one. The stand-alone density estimate of a cloud agrees with it point by point, and its gradient with respect to the points is the analytic one. It does not depend on schedules, on the device configuration or on how the neighborhoods were obtained.',
 ['inputs','histories','schedules','configurations'],
 'All clouds, radii, bandwidths, all histories of density requests, all GPU interleavings of the atomic gradient accumulation.',
 'Compared with scikit-learn for radii that cover the box and a single request per object; the GPU kernels and their gradient never run.',
 [NB,TFO,WR,CO+'compute_pdf'],
 [('kernel sums',TFO+' compute_pdf_tf'),('per point accumulation and atomic gradients',CO+'compute_pdf'),('normalisation',NB+' compute_pdf')],
 [('_pdf','cached density',NB)],['Neighborhood.compute_pdf/get_pdf','density_estimation','density_estimation_in_neighborhoods'])

prop('C08','Basis projection sums features times basis over each neighborhood',
 'The projection of features onto the neighbor basis is, for every center, channel and basis, the sum over the neighbors of the center of feature times basis value (zero without neighbors), and its gradients with respect to features and basis are the transposed sums. The result is the same for every number of channels and supported number of basis functions, every launch configuration and every schedule.',
 ['inputs','schedules','configurations'],
 'All neighborhoods (also empty ones), channel and basis counts, all GPU interleavings around the shared memory barriers and atomics, all device configurations.',
 'The CPU tests cover a few shapes with every center having neighbors; the blocked GPU kernels, with their shared memory and per-architecture launch sizes, never run.',
 [TFO,WR,CO+'basis_proj'],
 [('segment sum of the outer products',TFO+' basis_proj_tf'),('blocked shared memory kernels',CO+'basis_proj')],[],['basis_proj','convolution layers'])

prop('C09','Derived neighborhoods and cached densities stay consistent with their source',
 'Transposing a neighborhood (found without a neighbor limit) gives exactly the same pairs with the roles of center and neighbor exchanged, with ranges and ids valid for the exchanged clouds; repeating the request gives an equivalent result. A density once computed is returned unchanged by later requests until it is computed anew, then the new one is returned, and none of these requests (in any order, or failing at any point) changes pairs, ranges, grid or the density of the source or of another neighborhood of the same grid.',
 ['histories','fault_sequences'],
 'All sequences of transpose, density, recompute and read operations over neighborhoods that share a grid, each of which may fail at any point.',
 'No test transposes a neighborhood, asks twice for a density or uses an object after a failure.',
 [NB,GR],
 [('cached transpose',NB+' transpose'),('cached density',NB+' compute_pdf/get_pdf'),('cached cell index',GR+' get_DS')],
 [('_pdf','cached density',NB),('_transposed','cached transpose',NB),('_fast_DS','cached index',GR)],
 ['Neighborhood.transpose','Neighborhood.get_pdf','PointHierarchy.get_neighborhood'])

prop('C10','A point hierarchy is a chain of valid samplings of its input',
 'Level zero of a hierarchy is the given cloud and each further level is a valid sample (by the chosen method and that level\'s cell sizes) of the level before it, so that every non-empty batch element stays non-empty; cell sizes given for fewer dimensions are extended with the last one. Length, indexing, sizes, per-element and padded points and neighborhoods (also transposed, for one level or all) of all levels agree with the levels, and a change of the batch shape reaches all levels. This holds for every random outcome and every sequence of calls.',
 ['inputs','histories','schedules','fault_sequences'],
 'All clouds, level counts and cell sizes, all random outcomes, all sequences of accessor and shape calls, each of which may fail.',
 'There is no test of the hierarchy at all.',
 [PH,SA,PC],
 [('level construction',PH+' __init__'),('accessors over levels',PH)],
 [('_point_clouds/_neighborhoods','levels',PH)],
 ['PointHierarchy'])

prop('C11','Convolution layers compute their published definition, independent of history',
 'Each convolution layer (Monte-Carlo, PointConv, rigid and deformable kernel point, 1x1) returns for every output point the value its definition gives from the current weights, features, positions, radius and neighborhood, as flat, batch-sorted or zero-padded output on request and for flat or padded input features. The value does not depend on earlier calls of the layer on other clouds, on whether the neighborhood was passed in or built internally, on the order in which points were given, or on calls that failed, and different elements of a batch never influence each other. The regularization loss of a deformable layer is finite and is that of its last complete call.',
 ['inputs','histories','fault_sequences'],
 'All layer parameters, clouds and feature layouts, all call sequences on shared layers, clouds and neighborhoods, with failures at any point; all random initial weights and kernel rotations.',
 'The tests run each layer once on a fresh cloud whose ids are sorted; padded or sorted output, shared neighborhoods, reuse and failures are not exercised.',
 [L+'MCConv.py',L+'PointConv.py',L+'KPConv.py',L+'Conv1x1.py',L+'utils.py',TFO,WR],
 [('kernel MLP/points, density weighting, projection',L+'*Conv*.py'),('output formatting',L+'utils.py _format_output'),('feature flattening',UT)],
 [('per call state of KPConv','values kept for the regularisation loss',L+'KPConv.py')],
 ['MCConv','PointConv','KPConv','Conv1x1'])

prop('C12','Pooling layers reduce exactly the right points',
 'Global pooling returns per batch element the maximum or mean of the features of all its points, local pooling per output point the maximum or mean over exactly its neighbors within the radius, in the flat, batch-sorted or padded layout asked for, for flat or padded input features. The results do not depend on the order of the points, on earlier calls or on calls that failed.',
 ['inputs','histories','fault_sequences'],
 'All clouds, ids in any order, all layouts, all sequences of calls on shared clouds with changing batch shapes and failures at any point.',
 'Global pooling is tested on sorted ids only, local pooling on two grids; layouts, unsorted ids, reuse and failures are not covered.',
 [L+'Pooling.py',L+'utils.py',UT],
 [('segment reductions',L+'Pooling.py'),('output formatting',L+'utils.py')],[],
 ['GlobalMaxPooling','GlobalAveragePooling','MaxPooling','AveragePooling'])

prop('C13','A failed operation leaves no trace in the objects it was called on',
 'When an operation on a point cloud, grid, neighborhood, hierarchy or layer fails because an underlying computation or allocation fails at any point, it raises that error, and afterwards every other operation gives the result it would have given had the failed call not been made, and repeating the failed call succeeds with the regular result. No partial, unsorted or unnormalised intermediate value is ever returned later; only a density that was completed before the failure may stay cached, and a failed shape change of a hierarchy may already hold for some of its levels until it is repeated.',
 ['fault_sequences','histories'],
 'Every operation, every position of the failing underlying operation, repeated failures, and every continuation afterwards.',
 'Tests inject no failures; lazily filled caches make the outcome depend on exactly where a failure hits.',
 [PC,GR,NB,PH,L+'KPConv.py'],
 [('lazily filled caches are assigned last',PC+' get_sizes; '+NB+' compute_pdf, transpose; '+GR+' get_DS'),('shape change assigns all fields together',PC+' set_batch_shape')],
 [('lazy caches','_sizes, _aabb, _fast_DS, _pdf, _transposed','pylib/pc')],
 ['all public accessors'])

prop('C14','Shared objects can be read from several threads',
 'When several threads use the same point cloud, grid, neighborhood, hierarchy or pooling/convolution layer at the same time, each call that does not change the batch shape returns what it returns when run alone, whatever the interleaving, including the first calls that fill lazily computed values.',
 ['schedules','histories'],
 'All interleavings of the callers\' operations, at every point between two underlying operations and between source lines.',
 'All tests are single threaded.',
 [PC,GR,NB,PH],
 [('lazily filled caches are published complete',PC+'; '+GR+'; '+NB)],
 [('lazy caches','_sizes, _aabb, _fast_DS, _pdf, _transposed','pylib/pc')],
 ['all public accessors'])

prop('C15','Point files are read completely and exactly, or fail',
 'Reading a text file of points returns one row per line with the leading values as coordinates and the rest as features, each exactly the value written, for any dimension, delimiter, number of features (also none), line ending and presence of a final newline, as tensor or array; a line limit reads exactly the first lines. A missing file, a wrong argument type or an error while reading raises: rows are never silently lost, cut, merged or taken from a partially read file.',
 ['inputs','fault_sequences'],
 'All file contents and arguments, all ways the file system may deliver them (read sizes, errors at any position).',
 'There is no test of the loaders.',
 [IO],
 [('line splitting and conversion',IO+' load_points_from_file_to_tensor/_numpy')],[],
 ['load_points_from_file_to_tensor','load_points_from_file_to_numpy'])

prop('C16','Batch loaders pad and shape every file of the batch consistently',
 'Loading a list of point files or meshes gives for each file, at its position in the requested batch shape, its points followed by zero padding up to the longest file, the matching features and its true size; a batch shape that does not fit raises. An error in any one file fails the whole call, and the loaded batch makes a valid point cloud with the same content.',
 ['inputs','fault_sequences'],
 'All lists of files (sizes, features, dimensions, batch shapes) and read errors in any file at any position.',
 'There is no test of the loaders.',
 [IO],
 [('padding and stacking',IO+' load_batch_of_points/load_batch_of_meshes')],[],
 ['load_batch_of_points','load_batch_of_meshes'])

prop('C17','The dataset cache survives crashes: it is complete or rebuilt',
 'However often a run that prepares the dataset (with unchanged settings) is killed or fails, at any point, the next run that completes works with exactly the data of the source files, in order, whether it comes from the cache or not. A cache file that a later run accepts always holds the complete dataset, and a run never fails because of what a killed run left behind.',
 ['crash_points','fault_sequences','histories'],
 'Every crash point during loading and writing, sequences of crashes and restarts, torn or lost unflushed writes of the file being written, read errors of source files.',
 'The scripts have no tests; crashes inside the write of a cache file cannot be produced by a unit test.',
 ['modelnet40.py','modelnet40_small.py',IO],
 [('cache file is written aside and renamed','modelnet40.py, modelnet40_small.py')],
 [('train/test hdf5 files','durable cache','modelnet40.py')],
 ['train_data_points','test_data_points','cache directory'])

prop('C18','Each epoch delivers every sample at most once, with its own label',
 'Within an epoch the batches of the training data generator contain each sample at most once, all but fewer than one batch of them, each with its own label and its own leading points (rescaled only within the augmentation range); after the end of an epoch the next one is such a permutation again. This holds for every random outcome and for every order, repetition and abortion of batch requests.',
 ['schedules','histories'],
 'All dataset and batch sizes, all random outcomes, all orders in which batches are requested (one after the other, by index, by index from several workers), interrupted epochs.',
 'The scripts have no tests.',
 ['modelnet40.py','modelnet40_small.py'],
 [('permutation per epoch','modelnet40*.py modelnet_data_generator')],
 [('order/index','permutation and position','modelnet40*.py')],
 ['modelnet_data_generator.__getitem__','__call__','on_epoch_end'])

prop('C19','GPU ops stay inside their memory and report device failures',
 'For every valid input each GPU op reads and writes only inside the arrays it was given or allocated, never depends on memory nobody wrote, and all threads of a block reach each barrier; its result is the same for every schedule wherever it is not documented as random. Invalid inputs and failed allocations of outputs or scratch memory are reported as an error of that op and leave later calls unaffected.',
 ['inputs','schedules','configurations','fault_sequences'],
 'All inputs (also empty), device properties, thread interleavings, contents of unwritten memory and allocation failures.',
 'The GPU code is never executed in this environment, and a unit test on a GPU sees one schedule and does not notice out-of-bounds accesses.',
 [CO+'shared/cc/kernels',CO+'compute_keys',CO+'build_grid_ds',CO+'find_neighbors',CO+'sampling',CO+'compute_pdf',CO+'basis_proj'],
 [('index arithmetic of the kernels',CO+'*/cc/kernels'),('argument checks and allocation','custom_ops/tfg_custom_ops/*/cc/ops'),('device abstraction',CO+'shared/cc/kernels/tf_gpu_device.cpp')],
 [],['op outputs and op status'])

prop('C20','Residual blocks combine their layers as documented',
 'Each residual block (plain, feature bottleneck, spatial bottleneck) computes, for every block in turn, the input (optionally projected) plus the pre-activated convolution chain around the given points, for every layer type, with the same result whether neighborhoods are passed in or built internally and for every output layout. The result follows the points: giving the points in another order gives the same features in that order, and elements of a batch do not influence each other at inference.',
 ['inputs','histories','fault_sequences'],
 'All block configurations and clouds, all sequences of calls, failures at any point of a call.',
 'There is no test of the blocks.',
 [L+'network_blocks.py'],
 [('block structure',L+'network_blocks.py')],[],
 ['PointResNet','PointResNetBottleNeck','PointResNetSpatialBottleNeck'])

prop('C21','Kernel point layouts are rigid, balanced, distinct and inside the unit sphere',
 'The default kernel points of the kernel point convolution are, for each supported number and for every random rotation, the documented number of pairwise distinct points inside the unit sphere with one of them at the centre and the others balanced around it (they sum to zero, and no two points are close together: at least three quarters of the radius apart), and rotations change no distance between them and mirror nothing; an unsupported number raises.',
 ['inputs','schedules'],
 'All supported kernel sizes, all outcomes of the random rotation.',
 'Only the default of 15 points is built in a test and the layout itself is not inspected.',
 [L+'utils.py',L+'KPConv.py'],
 [('layout tables and rotation',L+'utils.py spherical_kernel_points, random_rotation')],[],
 ['spherical_kernel_points','KPConv'])

prop('C22','Compiled functions compute what eager calls compute',
 'A function that builds clouds, boxes, grids, neighborhoods (and their transposes and densities), cell averages, hierarchies, layers or residual blocks from its arguments, and the models of the dataset scripts, give the same results and feature gradients when compiled for arguments of unknown size as when executed eagerly. This holds for every call of a history that mixes compiled and eager calls with data of different sizes on the same layers: a result depends only on the arguments and the weights, not on the data the function was compiled or called with before, and a call that failed while its graph was built or executed does not change later calls. (Poisson disk sampling of the TensorFlow fallback and lookups of single elements, which need concrete values, are excluded.)',
 ['inputs','histories','fault_sequences'],
 'All pipelines of these parts, all sizes and sequences of calls, failures at every operation while building or executing a graph.',
 'All tests run eagerly, with one call per object and data of fixed size; static sizes of the first call or tensors of a graph kept in an object do not show there.',
 ['pylib/pc','modelnet40.py','modelnet40_small.py'],
 [('sizes taken from static shapes or tensors',NB+' compute_pdf; '+L+'KPConv.py'),('Python conditions on tensors',L+'network_blocks.py; '+UT),('models compiled with unknown sizes','modelnet40.py mymodel; modelnet40_small.py mymodel')],[],
 ['tf.function of pc calls','mymodel.__call__'])

prop('C23','Gradients are the derivatives of what the layers compute',
 'The gradient of every differentiable part (convolutions, 1x1 convolutions, pooling, residual blocks, the regularization loss, points sampled by the fallback), with respect to its input features, each of its parameters and the coordinates of clouds and neighborhoods built on the tape, is finite and equals the derivative of the documented value wherever that is differentiable, for every output layout. Every parameter is listed in trainable_variables, features of padding get no gradient, a training step changes exactly what the next call computes, and a gradient call that failed leaves values, parameters and later gradients as they were.',
 ['inputs','histories','fault_sequences'],
 'All clouds, layer configurations, parameter values, sequences of calls and training steps, failures at every operation of the forward or backward pass.',
 'The tests compare Jacobians of a few layers at one random point with distinct input and output clouds; singular points (a point as its own neighbor), blocks, pooling, layouts, batches, training steps and failures are not covered.',
 [L,NB+'',CO+'custom_ops_tf.py'],
 [('gradients of the custom ops','pylib/pc/custom_ops'),('distances with a root at zero',L+'KPConv.py'),('parameters as variables of modules',L+'MCConv.py, PointConv.py, KPConv.py, Conv1x1.py, network_blocks.py')],
 [('parameters','current values','tf.Variable of the layers')],
 ['tf.GradientTape over layer calls','trainable_variables'])

prop('C24','Saved state is the whole state of layers, blocks and models',
 'Whatever is saved of a layer, residual block or model of the dataset scripts by TensorFlow (checkpoint, weight file, or the arrays of its variables in order) determines what it computes: an object built anew in another process, with other random numbers and whether or not it was called before, gives after restoring the outputs, and under the same further calls and training steps the same results, as the object had when it was saved. This holds for every preceding history of calls, training steps and failed operations and for crashes at any point, where the last completed save counts; restoring in place replaces all state, also for compiled functions.',
 ['histories','fault_sequences','crash_points','configurations'],
 'All layers, blocks and models with all configurations, all histories of calls, training steps, saves and restores, crashes and failures at every operation, all outcomes of the random initialization.',
 'No test saves or restores anything; state kept outside of variables shows only in a second process with other random numbers.',
 [L+'',L+'network_blocks.py','modelnet40.py','modelnet40_small.py'],
 [('state in variables of modules',L+'KPConv.py _kernel_points, MCConv.py, PointConv.py, Conv1x1.py'),('layers in tracked lists',L+'network_blocks.py; modelnet40.py conv_block')],
 [('parameters, kernel points, moving averages','current values','tf.Variable of the layers'),('checkpoints','saved values','files')],
 ['tf.train.Checkpoint','save_weights/load_weights','variables'])

prop('C25','A run of a dataset script trains and reports what it says',
 'A complete run of a dataset script performs the configured number of epochs. Each epoch evaluates every full batch of distinct (randomly rescaled) training samples once in training mode and after each makes one RMSprop step of all parameters along the gradient of the loss of that batch at the scheduled learning rate (0.001, times 0.7 every 20 epochs); then every full batch of unchanged test samples once in inference mode, which changes no variable. The learning rate, losses and accuracies it prints are those of the epoch. modelnet40_small.py saves the weights at the end of each epoch. A run that is killed or fails at any point leaves the weights of its completed epochs loadable, and the next run completes.',
 ['inputs','histories','crash_points','fault_sequences'],
 'All data sets and batch sizes, all random outcomes, crashes and failures at every line, storage call and tensor operation.',
 'The scripts have no tests and a run takes days.',
 ['modelnet40.py','modelnet40_small.py'],
 [('training loop','modelnet40*.py training'),('optimizer and schedule','modelnet40*.py lr_decay, optimizer'),('saved weights','modelnet40_small.py training')],
 [('parameters','current values','model'),('saved_models/<epoch>','parameters after the epoch','files')],
 ['python modelnet40.py','python modelnet40_small.py'])

prop('C26','Elements of a batch do not influence each other',
 'What is computed for one element of a batch (its neighbors and distances, its densities, its pooled, averaged and convolved features, the output of blocks and, in inference mode, of the models) depends on that element and the arguments only. It is the same whichever other elements share the batch, in whatever order, representation and padding, whether they are empty or equal to it, and whatever the same objects computed before or a failing call left behind. Exceptions by design: batch normalisation in training mode, densities normalised over the whole batch, and the random choices of Poisson sampling.',
 ['inputs','histories','fault_sequences','schedules'],
 'All batches that contain the element, all representations of the batch, all histories of calls.',
 'The tests compare single batches with formulas; cross-talk between elements (an id, a key, an extent or a count of one used for another) needs particular companions.',
 ['pylib/pc/PointCloud.py','pylib/pc/Grid.py','pylib/pc/Neighborhood.py','pylib/pc/AABB.py','pylib/pc/layers/'],
 [('per-element keys','Grid, compute_keys, build_grid_ds'),('per-element bounds','AABB'),('flattening and unflattening','PointCloud.get_unflatten, layers/utils._flatten_features'),('neighbor ids','Neighborhood, find_neighbors')],
 [('batch ids','element of each point','PointCloud._batch_ids'),('keys','batch id in the leading digit','Grid._sorted_keys')],
 ['Grid','Neighborhood','get_pdf','layers','network blocks','models'])

prop('C27','Arguments mean the same in every form and are taken by value',
 'A function, constructor or layer gives the same result whether an argument is passed as a tensor, a numpy array of single or double precision (32 or 64 bit integers), a (nested) list or tuple, a variable or, where the documentation allows a number, as a Python or numpy number or as one value per dimension; mode and activation names may be written in any case. No call, failing or not, changes an argument, and what the caller does to its lists, arrays and variables after an object was built or a call returned has no influence on the object or the result, whatever is computed later from them.',
 ['inputs','histories','fault_sequences'],
 'All combinations of argument forms of all public constructors, functions and layers; all later changes of the arguments.',
 'The tests pass one form per argument and drop the arguments afterwards.',
 [PC,GR,NB,PH,SA,L],
 [('conversion of arguments','tf.convert_to_tensor / tf.cast at the beginning of each function'),('broadcast of numbers to dimensions',UT+' cast_to_num_dims, Grid, Neighborhood, Pooling'),('values kept for later calls','MCConv._mlp_size, PointCloud._batch_size_numpy')],
 [('arguments kept by objects','must be values of their own','attributes of objects')],
 ['PointCloud','Grid','Neighborhood','PointHierarchy','sampling','density_estimation','layers','network blocks'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
