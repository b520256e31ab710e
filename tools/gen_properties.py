"""Writes /verif/properties.jsonl (kept as a program so that edits stay consistent)."""
import json, os

F = 'biggus/_init.py'
D = 'biggus/experimental/dask_engine.py'
K = 'biggus/experimental/key_grouper.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Virtual arrays are lazy: only explicit conversion reads data',
     'Creating, indexing, transposing, casting, masking-by-value, stacking, tiling, broadcasting or arithmetically '
     'combining virtual arrays, requesting an aggregation of them, and asking for their shape, rank, dtype, fill value, '
     'byte count or text form never reads element data from any data source and never evaluates an expression. Element '
     'data is read only by an explicit conversion: ndarray(), masked_array(), NumPy array conversion, joint evaluation '
     '(ndarrays / masked_arrays / an engine) or save.',
     ['inputs', 'programs'],
     'Every array class, every public function and operator, every key and operand, every composition of them.',
     'A test can only check that particular expressions over particular sources did not read; the guarantee is over '
     'every expression a program can build. Existing tests use in-memory arrays, where an eager read is invisible.',
     [F], [('Array subclasses: constructors, properties, __getitem__/_getitem_full_keys, operators', F),
           ('public aggregation and elementwise factories', F)],
     ['reads of the concrete data source', 'calls of ndarray()/masked_array()/engine methods'])

prop('C02', 'Operations never modify their inputs; evaluation is repeatable',
     'Indexing, combining, inspecting or evaluating virtual arrays never changes the data of a data source, another '
     'virtual array, a key object passed by the caller, module-level state, or a chunk or result already handed to '
     'another consumer; the only operation that changes an array is explicit item assignment on a stack. Evaluating '
     'the same array again, later or concurrently from another thread, therefore gives the same result.',
     ['inputs', 'histories', 'schedules'],
     'Every operation on every array class, every order and repetition of operations, every interleaving of threads.',
     'Aliasing damage shows up only in a later operation on some other object, and only for sources whose slices are '
     'views; tests look at the result of single operations.',
     [F, D], [('in-place updates in stream handlers work on freshly allocated buffers', F),
              ('container copies (stack, new-axes, broadcast) before modification', F)],
     ['in-place mutation of objects reachable from operands, sources, chunks or module globals'])

prop('C03', 'Threaded evaluation completes or raises; failures never give partial data',
     'Evaluating any arrays with the threaded engine always terminates; it returns every requested result, in request '
     'order, only when every chunk of every input was read, processed and stored. If reading or computing any chunk of '
     'any input fails, with any exception, the call raises: it neither hangs (even when the failed part shares inputs '
     'with other results) nor returns partial or uninitialised data.',
     ['schedules', 'fault_sequences', 'inputs'],
     'Every expression graph, every chunk count, every interleaving of node threads, every point at which a read or a '
     'computation may raise.',
     'Tests run graphs of a few chunks without faults; the outcome of a fault depends on which thread raises, what is '
     'in flight in each queue and who else consumes from the same node.',
     [F], [('Node.abort / output / run loops and end-of-stream signals', F),
           ('AllThreadedEngine.Group.evaluate, _evaluate', F)],
     ['signals put on queues on every exit path', 'threads joined and results checked before returning'])

prop('C04', 'Arrays evaluated together get the values they have alone',
     'Evaluating several arrays in one call, or an expression in which sub-expressions share or repeat source arrays, '
     'gives each result exactly the value it has when evaluated alone. Work is shared between consumers only where '
     'each would have received the same chunks in the same order, and chunks of different operands are combined only '
     'when they cover the same region.',
     ['programs', 'inputs', 'configurations'],
     'Every expression graph with shared nodes, every combination of aggregation axes, every chunk size limit.',
     'Needs several consumers, different axes and more than one chunk (16 Mi elements) at the same time; the tests '
     'share sources only in single-chunk graphs.',
     [F], [('node cache keys of the expression graph', F),
           ('lock-step consumption of several inputs', F)],
     ['memo keys versus inputs of the memoised construction', 'keys of the chunks combined'])

prop('C05', 'Aggregations equal the textbook statistic however data is chunked',
     'count, min, max, sum, mean, std and var along one axis, plain and masked, give the mathematically defined '
     'statistic of the (unmasked) elements along that axis, with the requested ddof and missing-data tolerance, up to '
     'floating-point rounding. The result does not depend on how the source is divided into chunks along any axis, '
     'including single-element chunks. A masked result element is masked exactly when no unmasked element contributes, '
     'the missing-data tolerance is exceeded, or (std, var) the divisor count - ddof is not positive. This is for real '
     'numeric sources whose statistic fits the declared dtype.',
     ['inputs', 'configurations', 'histories'],
     'Every non-empty source, every mask, every axis, ddof and mdtol, every partition of the axis into successive chunks.',
     'With the default chunk limit a second chunk needs more than 16 Mi elements, so almost every test aggregates a '
     'single chunk; the carried-over state is what the property is about.',
     [F], [('_*StreamsHandler bootstrap / process_data / finalise', F),
           ('public aggregation factories and the handler pairs they select', F)],
     ['accumulated state after each chunk', 'emitted result'])

prop('C06', 'Masked conversion keeps masks; plain conversion is plain',
     'Converting any virtual array with masked_array (alone, jointly, or through a streamed evaluation or save) always '
     'yields a NumPy masked array in which an element masked in its source is still masked after any slicing, '
     'stacking, tiling, transposing, broadcasting, new-axis insertion, casting and elementwise operation. Converting '
     'with ndarray always yields an ordinary, unmasked ndarray. Both hold for every rank including zero.',
     ['inputs', 'programs'],
     'Every array class and every composition, every mask pattern, every rank.',
     'Losing a mask or a rank-0 wrapper needs a particular nesting of classes and a masked source; tests cover a few '
     'pairs, mostly with unmasked data.',
     [F, D], [('ndarray()/masked_array() of every Array subclass', F),
              ('masked flag carried from the request to every node of the graph', F)],
     ['type and mask of the converted result'])

prop('C07', 'The declared dtype is the dtype of the result',
     'For every virtual array, the dtype it reports before evaluation is the dtype of the array that ndarray() or '
     'masked_array() returns, both when converted directly and when evaluated as part of a larger expression or '
     'jointly. In particular, means, standard deviations and variances of integer sources are accumulated and '
     'returned in floating point without wrapping around.',
     ['inputs', 'programs'],
     'Every array class, every source dtype, every operand combination (arrays, NumPy scalars, Python numbers).',
     'Type promotion depends on the pair of dtypes and on the route taken (direct or streamed); tests fix a few dtypes.',
     [F], [('dtype properties and the buffers allocated by conversions', F),
           ('accumulator dtypes in the stream handlers', F)],
     ['dtype of buffers and casts on the way to the result'])

prop('C08', 'Each operator and function evaluates its NumPy namesake, operands in order',
     'Every public elementwise function, and every arithmetic operator in forward and reflected form, evaluates the '
     'NumPy function it is named after, with its operands in the order written. Its masked evaluation uses the '
     'numpy.ma function of the same name; the functions that have no masked counterpart raise TypeError instead of '
     'computing unmasked values.',
     ['inputs', 'programs'],
     'Every public elementwise function and operator, every operand.',
     'Around 70 bindings with 4 slots each (function, masked function, arity, operand order); tests exercise a handful, '
     'often with commutative operations or symmetric values.',
     [F], [('_ufunc_wrapper / _unary_fn_wrapper / _dual_input_fn_wrapper tables', F),
           ('Array operator methods', F)],
     ['function objects bound to each public name and operator'])

prop('C09', 'Streaming evaluation and save hold a bounded number of chunks',
     'A streamed evaluation or a save never holds more than a bounded number of source chunks in memory, whatever the '
     'size of the source: queues between nodes are bounded, sources are read only one chunk at a time, and running '
     'aggregation state has the size of one result chunk and does not grow with the number of chunks processed.',
     ['inputs', 'histories', 'schedules'],
     'Every source size and chunk count, every relative speed of producers and consumers.',
     'Memory growth appears only with sources much larger than any test uses.',
     [F], [('bounded queue.Queue between nodes', F), ('ProducerNode.run and save read array[key]', F),
           ('fixed-size accumulators', F)],
     ['queue capacity', 'what each conversion call covers', 'size of handler state'])

prop('C10', 'Out-of-range indices raise; negative indices count from the end',
     'Indexing any virtual array with an integer outside [-n, n) for an axis of length n raises IndexError, when the '
     'index is applied, for single integers and for integers inside index sequences. Any integer in range, positive '
     'or negative, selects the element that NumPy would select, on every array class including tiled, stacked, '
     'constant, broadcast and previously indexed arrays.',
     ['inputs', 'programs'],
     'Every array class, every axis and length, every integer index, every prior indexing.',
     'Each class checks or delegates bounds in its own way; tests try a few indices on a few classes.',
     [F], [('_ArrayAdapter._cleanup_new_key/_remap_new_key', F), ('LinearMosaic, BroadcastArray, NewAxesArray, '
           'ConstantArray indexing and _sliced_shape', F)],
     ['the bounds check or delegation on the path of each integer key'])

prop('C11', 'Aggregation axes are validated and normalised before use',
     'Every aggregation accepts exactly one axis given as an integer or a one-element iterable, negative values '
     'counting from the last axis, and reduces precisely that axis of the source. An axis out of range raises '
     'ValueError, a non-integer axis raises TypeError, and no axis or several axes raise instead of reducing some '
     'arbitrary axis.',
     ['inputs'],
     'Every aggregation function, every rank, every axis argument.',
     'Seven functions times all axis forms; each validates separately.',
     [F], [('_normalise_axis', F), ('count/min/max/sum/mean/std/var', F)],
     ['the axis value that reaches the aggregation node', 'raises on the paths that reject'])

prop('C12', 'Inconsistent pieces are rejected when arrays are combined',
     'Stacking raises ValueError when any piece differs from the first in shape or dtype, also when a piece is assigned '
     'into an existing stack; tiling raises ValueError when any piece differs from the first in dtype or in shape other '
     'than along the tiling axis, or when that axis does not exist; a piece that is not a virtual array is refused with an '
     'exception. Broadcasting raises ValueError when an axis that is not of length one (or already broadcast) would have to '
     'be stretched. The combined fill value is the pieces\' common fill value, and the dtype default when any piece '
     'differs from the others.',
     ['inputs'],
     'Every number of pieces, every position of the inconsistent piece, every kind of inconsistency.',
     'Tests try two or three pieces with the inconsistency in the last one.',
     [F], [('ArrayStack.__init__', F), ('LinearMosaic.__init__', F),
           ('BroadcastArray._shape_from_broadcast_dict/_compute_broadcast_shape', F)],
     ['validation of every piece before the combined array exists'])

prop('C13', 'Chunked traversal covers every element exactly once, in the right place',
     'The chunks used by streamed evaluation and by save partition the array: for every shape, chunk-size limit and traversal order every '
     'element is visited exactly once, each chunk has at most the configured number of elements, and each chunk is '
     'stored at the region it was read from. For an aggregation, all chunks that feed one result chunk '
     'arrive consecutively.',
     ['inputs', 'configurations'],
     'Every shape, chunk-size limit, traversal order and aggregation axis.',
     'Chunking only starts above 16 Mi elements; tests patch the limit for a few shapes.',
     [F], [('_all_slices_inner, ProducerNode.chunk_index_gen', F), ('save, NdarrayNode.process_chunks', F),
           ('_AggregationStreamsHandler.input_iteration_order/output_keys/process_chunks', F)],
     ['slices generated per axis', 'keys used to read and to store'])

prop('C14', 'Indexing a derived array keeps everything else about it',
     'Indexing an elementwise expression, an aggregation, a cast, a value-masked array, a transposed array or a '
     'constant before evaluation changes only which elements are selected: the operation and its masked counterpart, '
     'the operand order, the aggregated source axis and its ddof or tolerance, the mask value, the axis permutation, '
     'the constant and the dtype are carried over, and both operands of an expression are indexed alike.',
     ['inputs', 'programs'],
     'Every derived array class, every key, repeated indexing.',
     'Each class rebuilds itself with its own argument list; a dropped or shifted argument matters only for non-default '
     'values and particular keys.',
     [F], [('_getitem_full_keys/__getitem__ of derived classes', F)],
     ['constructor arguments of the rebuilt array'])

prop('C15', 'Index sequences apply to each axis independently',
     'Indexing a virtual array over an in-memory NumPy source treats the key of each axis independently (orthogonal indexing): the result of '
     'several sequences, boolean masks, slices and integers in one index equals applying each key along its own axis '
     'in turn. Keys given as one-shot iterables or lists are captured so that they can be applied any number of times.',
     ['inputs'],
     'Every combination of key kinds over the axes of a source.',
     'The combinations of key kinds grow exponentially with rank; tests use single sequences or two tuples.',
     [F], [('NumpyArrayAdapter._apply_keys', F), ('_ArrayAdapter key clean-up and remapping', F)],
     ['keys handed to the NumPy source in one operation'])

prop('C16', 'Task graphs of the dask engine can be executed repeatedly',
     'A task graph produced by the dask engine gives the same results every time it is executed, in any valid task '
     'order: its tasks keep no state between runs and do not share mutable state. Masked requests are evaluated masked and '
     'plain requests plain throughout the graph, and results are returned in request order.',
     ['schedules', 'histories', 'programs'],
     'Every graph, any number of executions, any scheduler order.',
     'Tests only inspect graph structure and never execute a graph twice.',
     [D], [('DaskGroup task construction', D), ('DaskEngine.ndarrays/masked_arrays/graph', D)],
     ['objects captured by task functions', 'masked flag reaching each task'])

prop('C17', 'Indexing then converting equals converting then indexing',
     'For every virtual array and every valid orthogonal key, converting the indexed array gives the same elements as '
     'applying the key axis by axis to the converted array.',
     ['inputs', 'programs'],
     'Every array class and composition, every key.',
     'Unbounded space of shapes, keys and nestings.',
     [F], [('_getitem_full_keys of every class', F)], ['element values'])

prop('C18', 'Declared shape is the shape of the result',
     'For every virtual array and every index applied to it, the shape it reports before evaluation is the shape of '
     'the array obtained by converting it.',
     ['inputs', 'programs'], 'Every array class, composition and key.',
     'Depends on run-time key contents and source shapes.',
     [F], [('shape properties, _sliced_shape', F)], ['shape of converted results'])

prop('C19', 'The dask engine and the threaded engine agree',
     'For every expression the experimental dask engine returns the same values as the threaded engine.',
     ['programs', 'inputs'], 'Every expression graph and chunking.',
     'Tests of the dask engine only look at graph node names.',
     [D, K], [('DaskGroup', D), ('group_keys', K)], ['element values'])

prop('C20', 'Streamed std and var are numerically accurate',
     'Streamed standard deviations and variances agree with a two-pass computation to within a small multiple of the '
     'working precision even when the mean is large compared to the spread.',
     ['inputs'], 'Every finite floating-point source.',
     'Floating-point error depends on the actual values.',
     [F], [('Welford updates in _StdStreamsHandler/_StdMaskedStreamsHandler', F)], ['rounding error of results'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
print(len(P), 'properties')
