#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
T='nntl/interface/threads/'; P=[]
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook='none'):
    a=dict(files=files, mechanism=[dict(name=n, where=w) for n,w in mech])
    if state: a['state']=[dict(name=s) for s in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
SCH='Depends on the interleaving of several threads (and on preemption inside the pool code itself); a test observes a handful of interleavings on one machine.'
p('P01','Parallel loops process every item exactly once before returning',
 'A parallel loop over N items hands out ranges that together cover every item exactly once, at most as many of them as the caller allowed, each to a different thread with its own small thread number and number zero to the caller. When the call returns every range has been fully processed, all its effects are visible to the caller, and no worker touches the passed function or its data any more. This holds for any N, pool size, thread limit, function object kind, sequence of calls and thread schedule, with spurious wake-ups.',
 ['schedules','inputs','histories','configurations'],'every schedule of caller and workers, every item count, thread limit, pool size, kind of function object, sequence of calls on one pool',SCH,
 [T+'workers.h',T+'parallel_range.h','nntl/interface/_i_threads.h',T+'_sync_primitives.h','nntl/utils/call_wrappers.h'],
 [('range partitioning','Workers::run / partition_count_to_workers'),('start and end handshake','Workers::_worker, m_waitingOrder, m_workingCnt'),('function wrappers','nntl/utils/call_wrappers.h')],
 ['ranges per worker','working count','order condition'],['return of a parallel call','entry of the user function'])
p('P02','Parallel reductions are correct and independent of thread timing',
 'A parallel reduction combines exactly one partial result per range, in range order, and the partial results cover every item exactly once. Its value is therefore the value of the reduction over all items, and two reductions of the same data with the same number of threads give bit-identical results whatever the schedule and whatever ran on the pool before.',
 ['schedules','inputs','histories','configurations'],'every schedule, data set, item count, result type (floating point and integer), pool size, thread limit and history of the pool',SCH+' A partial result read too early is often the right stale value.',
 [T+'workers.h','nntl/interface/_i_threads.h',T+'parallel_range.h'],[('reduce cache','Workers::reduce, m_ReduceCache'),('value packing','_i_threads::converter_reduce_data_t')],['reduce cache'],['value returned by a reduction'])
p('P03','Worker pools start and stop without hanging or leaking threads',
 'Creating a worker pool and destroying it always terminates, in whatever state its threads are, directly after creation, after any number of parallel calls, with several pools alive, under any schedule and with spurious wake-ups. Afterwards none of its threads exists and its memory is released.',
 ['schedules','histories','configurations'],'every schedule of construction, use and destruction; every pool size; several pools',SCH+' A lost wake-up at shutdown hangs once in many thousand runs.',
 [T+'workers.h',T+'_sync_primitives.h'],[('stop request','Workers::~Workers, m_bStop'),('waiting loop','Workers::_worker')],['stop flag','order condition'],['return of constructor and destructor','threads alive afterwards'])
p('P04','Work spread over threads is free of data races and memory errors',
 'No two threads of a pool make conflicting unsynchronised accesses to the same memory, and no memory outside of a live object is read or written, in any parallel operation of the library: the pools themselves, the mathematics, the random number generators, the background generators and complete trainings. This holds for every schedule, matrix shape, thread count and operation.',
 ['schedules','inputs','configurations'],'every schedule, shape and operation that is executed on more than one thread',SCH+' Neighbouring ranges that overlap by one element are invisible to value checks.',
 [T+'workers.h',T+'bgworkers.h','nntl/interface/math/mathn.h','nntl/interface/math/smath.h','nntl/interface/rng/afrand_mt.h','nntl/interface/rng/afrand_as.h','nntl/utils/data_buffer.h'],
 [('per-thread ranges and scratch memory','nntl/interface/math/smath.h _processMtx_cw / _processMtx_rw'),('handshakes','Workers, BgWorkers')],['matrices','scratch memory','pool state'],['every load and store of the ported code'])
p('P05','All threads of a pool compute in the same floating point mode',
 'Every function executed by a worker pool or by the background workers, and every background task, runs in the floating point mode that the library sets globally (denormals flushed and rounding mode), on every thread, from the first call on. The pool reports denormals as enabled exactly when some participating thread, the caller included, has them enabled.',
 ['schedules','histories','configurations'],'every schedule, pool size and sequence of mode changes',SCH+' With ordinary numbers a wrong mode on one thread changes nothing.',
 [T+'workers.h',T+'bgworkers.h','nntl/utils/denormal_floats.h','nntl/interface/_i_threads.h'],[('thread start','Workers::_worker_init, BgWorkers::_s_worker'),('query','Workers::denormalsOnInAnyThread')],['control register of every thread'],['inside parallel functions'])
p('P06','All ways of executing a mathematical operation give the same, correct result',
 'Every operation of the mathematics interface computes what its name and documentation define - activations, derivatives, losses, optimizer steps, dropout, row and column reductions, norms, products, covariance, transposition, extraction, tiling, the K best values of every column over a sequence of batches - whichever execution is used (single-threaded, multi-threaded, by rows, by columns, numerically stabilised, or the automatic choice among them), with and without a bias, and in both matrix layouts where they are supported. Data movement, counting and selection are exact (where elements tie for a maximum any of them may be named), the rest is equal up to rounding; memory that is not a destination, such as biases, stays untouched. The result does not depend on the schedule or on what the temporary memory held before, two executions of the same kind are bit-identical, and the operation never needs more temporary memory than it announces.',
 ['schedules','inputs','configurations'],'every operation, matrix shape (one row, one column, fewer rows than threads, with and without biases, sample in a row or in a column), thread count, schedule and previous content of temporary memory',SCH+' Results of neighbouring ranges differ only at the borders, for particular shapes and thread counts.',
 ['nntl/interface/math/smath.h','nntl/interface/math/mathn.h','nntl/interface/math/smath_thr.h','nntl/interface/math/mathn_thr.h','nntl/interface/math/_mcwFindKOrdered_hlpr.h',T+'workers.h'],
 [('partition by columns or rows','smath.h _processMtx_cw / _processMtx_rw'),('temporary memory','smath.h _istor_alloc / *_needTempMem'),('automatic choice','Thresholds_t')],['temporary memory','matrices'],['return of every operation'])
p('P07','Random generators are reproducible from a seed and deliver complete fresh data',
 'After the same seed (given at construction, by init_ithreads, seed, seed64 or reseed) a synchronous generator, single- or multi-threaded, delivers bit-identical numbers for the same sequence of requests, whatever the schedule and whatever was generated before. Every request fills all requested elements and nothing else (biases of a matrix stay), every number lies in the documented range, and a normal vector for mean m and deviation s is m + s times the standard one of the same seed. The generators of different threads are seeded differently: no number of any underlying generator is delivered twice, also by the asynchronous generator while its background threads refill, are seeded, stopped and started again. When memory for its buffer is refused, the asynchronous generator neither crashes nor leaks and still delivers numbers.',
 ['schedules','histories','inputs','fault_sequences'],'every schedule of pool and background threads, sequence of requests, request size, seed, moment of initialisation and allocation failure',SCH+' Statistics of the output look right even when two threads share a seed or elements are delivered twice.',
 ['nntl/interface/_i_rng.h','nntl/interface/rng/afrand_mt.h','nntl/interface/rng/afrand_as.h','nntl/interface/rng/afrand.h','nntl/interface/rng/cstd.h','nntl/utils/data_buffer.h'],
 [('generator per thread','_AFRand_mt::seed, m_Rngs'),('background refill','as::AsynchRng::_as_norm, DataBuffer'),('matrix helpers','rng_helper')],['generator of every thread','number buffer'],['content of the vectors delivered'])
p('P08','A function sent to the background workers runs once on each before return',
 'Executing a function on all background workers runs it exactly once on every worker thread, never on the caller, and returns only after all of them finished, with their effects visible. This holds, and the call ends in bounded time, while tasks are registered, running for long or never out of work, and while timeouts are changed.',
 ['schedules','histories','configurations'],'every schedule, number of workers, set of registered tasks and sequence of calls',SCH,
 [T+'bgworkers.h',T+'_sync_primitives.h'],[('broadcast','BgWorkers::exec, m_workingCnt'),('worker loop','BgWorkers::_worker')],['function pointer','working count'],['entry of the function on each worker','return of the call'])
p('P09','Background tasks are served by priority and never run after deletion',
 'Every registered background task keeps being offered to the workers, a worker goes to a task of lower priority only after the tasks above it reported no work, and any task gets its turn within bounded time when those above it are idle. Once tasks were deleted, or the worker object destroyed, no task runs and none of its memory is touched; deletion and destruction always terminate.',
 ['schedules','histories','configurations'],'every schedule, set of tasks and priorities, number of workers, timeouts and sequence of adding, deleting and destroying',SCH,
 [T+'bgworkers.h'],[('task list','BgWorkers::add_task / delete_tasks'),('worker loop','BgWorkers::_worker')],['task list','stop flag'],['entry of each task','return of delete and destructor'])
p('P10','The circular buffer delivers every produced value exactly once, in order',
 'Values that background producers put into the circular data buffer come out at the consumer exactly once, in the order each producer delivered them, none lost, invented, duplicated or torn, whatever the capacity, request sizes and wrap-arounds, and also when several threads take the values of a range one by one and return the unused rest. A value handed to the consumer does not change until the consumer releases it, and a request that fits the buffer is satisfied in bounded time while producers work.',
 ['schedules','inputs','histories','configurations'],'every schedule of producers and consumer, capacity, offer and request size, wrap-around position',SCH+' The faults need a full or empty buffer at a wrap-around.',
 ['nntl/utils/data_buffer.h','nntl/utils/circ_buffer.h'] if os.path.exists('/repo/nntl/utils/circ_buffer.h') else ['nntl/utils/data_buffer.h'],[('claim and publish','DataBuffer::_as_should_work / _as_done'),('consume','DataBuffer::acquire_data / release_data')],['read and write positions'],['values seen by the consumer'])
p('P11','Training from the same seed gives bit-identical results under any schedule',
 'Two trainings of equal networks with equal data, settings and seed, by any number of threads (the same in both), see the same batches in the same order, compute the same activations, dropout masks, gradients and weight updates at every step, report the same losses and predictions and end with bit-identical weights, whatever the schedule of the worker threads, whatever memory held before and whatever the random generator was used for before it was seeded. This holds for every optimiser, regulariser, layer kind and batch size.',
 ['schedules','inputs','configurations'],'every schedule, network architecture, optimiser, regulariser, batch size, data set and previous memory content',SCH+' Uninitialised memory and racy partial sums give the expected value most of the time.',
 ['nntl/nnet.h','nntl/train_data/inmem_train_data.h','nntl/train_data/_train_data_simple.h','nntl/grad_works/grad_works.h','nntl/layer/fully_connected.h','nntl/interface/math/mathn.h','nntl/interface/rng/afrand_mt.h'],
 [('training loop','nnet::train'),('shuffling of samples','data set classes'),('parallel mathematics and random numbers','MathN, AFRand_mt')],['weights','optimiser state','sample order'],['every call of the inspector interface','reports to the observer','weights after training'])
p('P12','Batches and evaluations cover the data set exactly, samples paired with targets',
 'In every epoch each training batch has exactly the configured size, no sample occurs twice and every batch row is an unchanged sample of the training set together with its own target, bias column intact. Every evaluation of the training or test set covers each of its samples exactly once, in order and with its own target, whatever the evaluation batch size, and announces the right number of batches; walks over data sets and over transformed data sets do the same, and the classification evaluators count exactly the samples that are classified correctly. The data set itself is never modified. All this holds for any number of samples (including remainders of one), any batch sizes, any sequence of trainings, evaluations and walks on one data set, and any schedule.',
 ['inputs','histories','schedules','configurations'],'every number of samples, batch size, evaluation size, sequence of initialisations, epochs and walks, every schedule','Off-by-one faults need particular remainders or a particular order of initialisations; the random order of samples hides lost ones from value checks.',
 ['nntl/train_data/_train_data_simple.h','nntl/train_data/inmem_train_data.h','nntl/train_data/inmem_train_data_stor.h','nntl/train_data/transf_train_data.h','nntl/nnet_evaluator.h','nntl/nnet.h','nntl/interface/math/mathn.h'],
 [('batch extraction','_train_data_simple / inmem_train_data on_next_epoch, on_next_batch, next_subset'),('walk','_i_train_data walk_over_set'),('evaluators','nnet_evaluator.h')],['sample order','batch matrices'],['batches given to the network','evaluation reports','walk callbacks'])
p('P13','Failing allocations are reported, leak nothing and leave objects usable',
 'If memory is refused at any point of a training, an inference, a data set initialisation, walk or evaluation, the call returns an error (or completes correctly without that memory), sets the last error accordingly, does not terminate the program and touches no memory it does not own. Nothing is leaked, and the same objects used again with memory available give what objects that never failed give.',
 ['fault_sequences','histories','configurations'],'every allocation as the failing one, repeated failures, every architecture, batch size and kind of call','A unit test cannot make the n-th allocation fail, and the failing ones are spread over the whole initialisation.',
 ['nntl/nnet.h','nntl/common_nn_data.h','nntl/train_data/_train_data_simple.h','nntl/train_data/inmem_train_data.h','nntl/nnet_evaluator.h','nntl/interface/math/smath.h','nntl/interface/math/smatrix.h','nntl/layer/fully_connected.h','nntl/grad_works/grad_works.h'],
 [('initialisation and its undoing','nnet::_init / deinit, data set init4train / init4inference'),('error codes','nnet ErrorCode')],['initialisation flags','temporary memory','layer storage'],['return of every call','live memory afterwards'])
p('P14','Results depend on weights, settings, data and seed, not on earlier use',
 'A training or prediction done with a network that was used before (trained with other batch sizes, evaluated, used for predictions of any batch size, reinitialised, deinitialised) gives bit for bit what a new network with the same weights, settings, data and seed gives, as long as the optimiser keeps no state between trainings. Predictions and evaluations never change weights, and evaluating more often or with other evaluation batch sizes, observing, or making predictions from the epoch callback does not change the training. A training that is refused (data set or targets of another width, an empty data set, a veto of the initialisation callback) returns and records the matching error, trains nothing and leaves no trace; one stopped by the epoch callback leaves what a shorter training leaves.',
 ['histories','schedules','configurations'],'every sequence of trainings, predictions, evaluations and reinitialisations with any batch sizes, every architecture and schedule','The faults need a second use with other sizes than the first; tests use each network once.',
 ['nntl/nnet.h','nntl/common_nn_data.h','nntl/layers.h','nntl/layer/fully_connected.h','nntl/layer/_activation_wrapper.h','nntl/train_data/_train_data_simple.h','nntl/nnet_evaluator.h'],
 [('reuse of initialised state','nnet::_is_initialized / _init'),('mode and batch size switches','common_nn_data, layers::on_batch_size_change')],['initialisation state','activation storage','batch sizes'],['weights, losses and predictions'])
p('P15','A binary data file is read exactly or refused; faults leave data untouched',
 'Reading a well formed binary data file fills the given matrix or data set with exactly the stored names, shapes and values (converted to the requested precision), biases included, whatever pieces the file system delivers the bytes in. A file that is truncated, corrupted, has impossible dimensions, misses a field or repeats one, and a file whose reading fails at any byte or for which memory is refused, is reported by an error: never a crash, an endless loop, an access outside of owned memory or a success with wrong data. No file stays open, no memory is leaked, and the same reader and destination can be used again for a good file.',
 ['inputs','fault_sequences','histories'],'every file content, position of a read error or end of file, short read, failing allocation and sequence of reads','A unit test reads a few good files; the faults are at every byte and every allocation.',
 ['nntl/_supp/io/binfile.h','nntl/train_data/inmem_train_data_stor.h','nntl/train_data/seq_data.h','nntl/interface/math/smatrix.h'],
 [('header and field parsing','binfile::read'),('destination','inmem_train_data_stor, seq_data, smatrix::resize')],['file handle','destination matrices'],['result code and destination after each read','open files and live memory at the end'])
p('P16','A JSON data file is read exactly or refused; faults leave nothing behind',
 'Reading a well formed JSON data file into a matrix or data set gives exactly the numbers in the file (to the precision of the element type), in shape, with biases as asked. A file that is not JSON, has rows of different length, wrong types, missing or invalid fields, is truncated anywhere, cannot be opened or read, or for which memory is refused, is reported by the matching error (or bad_alloc), never by a crash or by wrong data taken as success. No file stays open, nothing is leaked, and reader and destination can be used again.',
 ['inputs','fault_sequences','histories'],'every document, position of truncation or read error, short read, failing allocation and sequence of reads','A unit test reads a few good files; the faults are at every byte and every allocation.',
 ['nntl/_supp/io/jsonreader.h','nntl/train_data/inmem_train_data_stor.h','nntl/interface/math/smatrix.h'],
 [('parsing and conversion','jsonreader::read, _parse_mtx')],['file handle','document','destination matrices'],['result code and destination after each read','open files and live memory at the end'])
p('P17','Weights and data saved to MATLAB files load back exactly; faults are reported',
 'With MATLAB support on and the MATLAB C functions (matOpen, matPutVariable, mxCreateNumericMatrix, ...) behaving as documented or failing, everything saved to a MATLAB file without a reported error is in the file after closing it and loads back bit for bit with its shape, class and biases: scalars and matrices of every supported type, structures nested in any way, updated or put side by side, whole data sets, the weights of any network, and a trained network as a whole (weights, learning rates and the shapes of the state of its optimizers). A network of the same architecture that has successfully read the weights another one has written predicts exactly the same. Values of another numeric class are converted to the same number. A missing variable, file or layer, a variable of the wrong kind or shape, weights of another architecture, a truncated file, or any failing open, read, write, close or allocation is reported (error code, or false from read_weights/write_weights) and sticks until the archive is closed; saving never changes the network, nothing is leaked or freed twice, no file stays open, and the floating point mode is as before.',
 ['inputs','histories','fault_sequences','configurations'],'every variable, nesting and order of structures, open mode, architecture, history of the network, point of truncation, failing call and sequence of saves and loads','The code is not even compiled by the tests (it needs MATLAB); the faults are at every call and the structures in every nesting.',
 ['nntl/_supp/io/matfile.h','nntl/utils/matlab.h','nntl/serialization/serialization.h','nntl/nnet.h','nntl/layers.h','nntl/layer/fully_connected.h','nntl/layer/output.h','nntl/train_data/inmem_train_data_stor.h','nntl/interface/math/smatrix.h'],
 [('saving and loading','_matfile::operator<<, operator>>, _save_to_file_or_struct, _load_var'),('structures','_matfile_savingEx::save_struct_begin, save_struct_end, close'),('networks','nnet::write_weights, read_weights; _LFC_FProp::save, load')],['archive error and structure stacks','weights','floating point mode'],['file content and loaded variables','error code of each call','open files, live memory'])
p('P18','Matrices keep shape, biases and ownership through any history of operations',
 'Through any sequence of resizing, deforming, cloning, moving, borrowing, filling, bias handling and destruction of matrices, with memory refused at any point, every matrix has exactly the shape and the elements the operations define, bias columns are exactly one where they are emulated, deforming down and back up within the allocated size keeps the storage, an operation that fails says so and leaves every matrix usable and destructible, storage is freed exactly once by its owner and never by a borrower, and no operation touches memory outside of its matrices.',
 ['histories','fault_sequences','inputs'],'every sequence of operations on a set of matrices, every shape, every failing allocation','The faults need a particular sequence (deform, then clone, then a failing resize); tests use each operation on a fresh matrix.',
 ['nntl/interface/math/smatrix.h'],[('storage','smatrix::_realloc, _free, useExternalStorage'),('deformation','smatrix_deform::deform*'),('biases','smatrix::set_biases, test_biases_strict')],['data pointer, ownership and bias flags, dimensions'],['return of every operation'])
p('P19','Thread and process priorities are restored after a prioritised section',
 'After a prioritised section ends, the process and every worker thread have the priority they had before it. If changing any of the priorities fails part way, the changes made so far are undone and the section runs with the original priorities. Background workers get exactly the priority relative to their creator that was asked for, all of them or, if a change fails, none, and the creator keeps its own.',
 ['fault_sequences','histories','configurations'],'every failing system call at every position, every original priority, number of workers, parallel calls inside the section','A failing priority call cannot be provoked by a unit test, and the test machine has one initial priority.',
 [T+'prioritize_workers.h'] if os.path.exists('/repo/nntl/interface/threads/prioritize_workers.h') else [T+'workers.h'],[('guard object','prioritize_workers constructor and destructor')],['priorities'],['priorities before, inside and after the section'])
p('P20','Locks exclude, waits wake up, and timed waits report the truth',
 'At most one thread is inside an exclusive section of any lock type of the library and no reader is inside at the same time, while readers can be inside together; the effects of one section are visible in the next. A wait on a condition ends only when the condition holds and no wake-up is lost; a timed wait reports a time-out only after its time has passed and reports the truth about its condition. This holds for the native and the standard library flavour, under any schedule and with spurious wake-ups.',
 ['schedules','histories'],'every schedule of lockers, waiters and signallers, spurious wake-ups, clock behaviour',SCH,
 [T+'_sync_primitives.h'],[('spin lock, slim reader/writer lock, condition variable','_sync_primitives.h')],['lock words','wait queues'],['entry of sections','return of waits'])
p('P21','A training step is the optimiser step of the exact gradient of the loss',
 'For every architecture (fully connected, vertical, horizontal, tiled and gated packs, nested, with dropout and activation penalties), activation, loss and layer-wise optimiser settings (all nine update rules, momentum and Nesterov momentum, L1, L2, max-norm, individual learning rates, learning-rate dropout, restricted derivatives, frozen layers, settings changed between epochs, trainings continued or restarted), the weights after every batch are those of the documented update rule applied to the exact gradient of the loss over that batch given the random numbers drawn, weights of layers that are frozen or got no samples stay as they are, predictions are the forward function of the weights, and the reported loss is the mean loss plus the enabled penalties. This holds for every number of threads, schedule and batch size.',
 ['histories','schedules','configurations'],'every architecture, setting, batch size, sequence of epochs and trainings, schedule and number of threads','A test checks single operations or that the loss falls; a wrong gradient, optimiser state or penalty in one combination of settings still learns.',
 ['nntl/nnet.h','nntl/layers.h','nntl/layer/fully_connected.h','nntl/layer/output.h','nntl/layer/pack_horizontal.h','nntl/layer/pack_horizontal_optional.h','nntl/layer/pack_tile.h','nntl/layer/pack_vertical.h','nntl/layer/_penalized_activations_base.h','nntl/dropout/dropout.h','nntl/grad_works/grad_works.h','nntl/grad_works/ILR.h','nntl/loss_addendum/L1.h','nntl/loss_addendum/DeCov.h','nntl/activations/elogu.h','nntl/interface/math/mathn.h'],
 [('forward and backward pass','layers::fprop / bprop and the same of each layer'),('update','grad_works::apply_grad, pre_training_fprop'),('loss','nnet::calcLossAndReport')],['weights','optimiser state','dropout masks','random generator'],['weights after each batch','predictions and loss of each evaluation'])
p('P22','Normalising a data set gives the requested mean and deviation, the same for all',
 'After a successful normalisation of a data set (as a whole or feature by feature) the training data it was measured on has the requested mean and standard deviation within the tolerance asked for; what was not asked to change stays, features that are constant are never scaled, and one and the same affine map was applied to every sample of every set, targets and biases untouched. It succeeds whenever this can be done, whatever the batch size and number of batches measured, the element type and the type of the statistics, the number of threads and their schedule. Data sets that make their samples on the fly deliver normalised samples in training and in evaluation from then on until normalisation is switched off, which restores the original samples; a second normalisation changes nothing.',
 ['inputs','histories','schedules','configurations'],'every data content (constant, skewed, far from zero), setting, batch size and count, element type, schedule and number of threads','A test normalises one benign set; failures need constant features, an update that only scales or only moves after another one, or a particular split into batches.',
 ['nntl/train_data/_td_norm.h','nntl/utils/mtx2Normal.h','nntl/train_data/_td_base.h','nntl/train_data/transf_train_data.h','nntl/train_data/inmem_train_data.h'],
 [('measuring','mtx2Normal::normalize_whole / normalize_cw'),('updates','td_norm::normalize_*, ScaleCentralData'),('application','_fix_trainX_*, _do_fix_dataX_*, _apply_normalization2batchX')],['data or normalisation parameters','cumulative statistics'],['every sample of every set before and after'])
p('P23','Initial weights follow the chosen scheme; LSUV reaches the statistics asked for',
 'Layer-sequential normalisation of weights that reports success leaves every layer it was asked to change with the requested mean and deviation (of each neuron or of the whole layer, before or after the activation, over the batches it was told to measure) within the requested tolerance, with all layers normalised together. When it reports failure it names the layer; statistics before the activation are always reached when they can be measured. It only scales weights and shifts biases by one factor and one offset per neuron or layer (unless it had to draw the weights again), leaves layers with nothing to change untouched and the network computing with its own activations, ready for training. The static schemes produce weights of the documented shape (bounds, number of nonzero weights, orthonormal rows or columns times the gain) and report a failure to allocate memory.',
 ['inputs','histories','schedules','configurations'],'every supported architecture, target statistics, tolerance, number and size of batches, previous history of the network (fresh, initialised, trained), weight matrix shape, random seed, schedule, number of threads and allocation failure','A test runs one architecture on one data set; errors need partial batches, per-layer settings, packs of layers or a network that was trained before.',
 ['nntl/weights_init/LsuvExt.h','nntl/weights_init/static.h','nntl/utils/mtx2Normal.h','nntl/utils/layers_settings.h','nntl/layer/_activation_wrapper.h','nntl/interface/_i_rng.h'],
 [('layer loop and settings','LSUVExt::run, operator(), layer_settings'),('measuring and scaling','mtx2Normal::normalize_*, LSUVExt weightNorm callbacks'),('static schemes','Xavier, He_Zhang, Martens_SI, OrthoInit')],['weights'],['weights and activations after run()'])
p('P24','The gradient check accepts right gradients, finds wrong ones, changes nothing',
 'For every network with smooth activations and loss, the numeric gradient check succeeds when the gradients are right, whatever batch and online batch sizes (up to the whole data), number of parameters asked for, step, verbosity and previous history of the network (fresh, initialised, trained), with random numbers of dropout repeated when asked. When all parameters are checked and any single derivative (of a weight, a bias or an activation) is wrong or not a number, it fails and names the layer with the wrong weight derivative, unless that layer is to be ignored; zero derivatives are accepted only as far as the settings allow, and more samples than there are are refused. It never changes a weight or the data, and a training that is checked from its epoch callback goes on exactly as one that is not.',
 ['inputs','histories','schedules','configurations'],'every smooth architecture, data set, batch size, online batch size, selection of parameters, position of a wrong derivative, history of the network and schedule','Existing checks use one network each and only its success; a check that stops looking, tests the wrong coordinate or leaves a changed weight or mode behind still reports success.',
 ['nntl/nnet.h','nntl/utils/gradcheck.h','nntl/utils/dataHolder.h','nntl/interface/inspectors/gradcheck.h','nntl/utils/layer_idx_keeper.h'],
 [('check','nnet::gradcheck, GradCheckFunctor'),('perturbation of weights and activations','inspector::GradCheck'),('batches','utils::dataHolder')],['weights','mode and batch size of the network','blocked learning flag'],['result and report of each check','weights afterwards','training that contains checks'])
p('P25','The dumping inspector dumps exactly what was asked for, at the right moments',
 'A network trained with the dumping inspector writes a file for exactly those batches, epochs and error calculations its condition selects (chosen epochs, last batch of the last epoch, first batches with a stride, training error calculation before or after chosen epochs), in and only in the layers the black or white list allows, and each file holds under the layer and variable names the values the network worked on at that moment (activations, weights, gradients, updates, momenta, gains). Without being asked it writes nothing; turning the inspector off stops dumping unless training is told to force inspectors on, and its state is restored after training.',
 ['histories','configurations','inputs'],'every condition setting, number of epochs and batches, black and white list, architecture, optimiser setting and schedule','Nothing tests dumping; wrong moments, layers mixed up through nesting or stale values only show by comparison with the run.',
 ['nntl/interface/inspectors/dumper.h','nntl/utils/bwlist.h','nntl/utils/vector_conditions.h','nntl/utils/layer_idx_keeper.h','nntl/_supp/io/matfile.h','nntl/nnet.h'],
 [('conditions','inspector::conds'),('dumping','_dumper_base, _dumper'),('layer lists','utils::_bwlist')],['archive','condition state'],['files written and their contents'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80, x['id']
