From 66389c34d1d44298fadd346cd2b6b3f376e57467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 01/24] fix: combine min and max over all chunks along the
 aggregated axis

---
 biggus/_init.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cd78b54..7bb6d78 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2329,7 +2329,7 @@ class _CountMaskedStreamsHandler(_AggregationStreamsHandler):
 
 class _MinStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2340,15 +2340,19 @@ class _MinStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis)
+        if self.result is not None:
+            # Combine with the result of the previous chunks.
+            result = np.minimum(self.result, result)
+        self.result = result
 
 
 class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
-        array = self.result
+        array = np.squeeze(self.result, axis=self.axis)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.ma.array(array)
@@ -2356,12 +2360,17 @@ class _MinMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.min(data, axis=self.axis)
+        result = np.min(data, axis=self.axis, keepdims=True)
+        if self.result is not None:
+            # Combine with the result of the previous chunks.
+            both = np.ma.concatenate([self.result, result], axis=self.axis)
+            result = np.min(both, axis=self.axis, keepdims=True)
+        self.result = result
 
 
 class _MaxStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
         array = self.result
@@ -2372,15 +2381,19 @@ class _MaxStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis)
+        if self.result is not None:
+            # Combine with the result of the previous chunks.
+            result = np.maximum(self.result, result)
+        self.result = result
 
 
 class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
     def bootstrap(self, processed_chunk_shape):
-        self.result = np.zeros(processed_chunk_shape, dtype=self.array.dtype)
+        self.result = None
 
     def finalise(self):
-        array = self.result
+        array = np.squeeze(self.result, axis=self.axis)
         # Promote array-scalar to 0-dimensional array.
         if array.ndim == 0:
             array = np.ma.array(array)
@@ -2388,7 +2401,12 @@ class _MaxMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.result = np.max(data, axis=self.axis)
+        result = np.max(data, axis=self.axis, keepdims=True)
+        if self.result is not None:
+            # Combine with the result of the previous chunks.
+            both = np.ma.concatenate([self.result, result], axis=self.axis)
+            result = np.max(both, axis=self.axis, keepdims=True)
+        self.result = result
 
 
 class _SumStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0


From b63827ce2666290bd3f472fc912d37fa239df89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 02/24] fix: accumulate means in floating point

---
 biggus/_init.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 7bb6d78..87f0518 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2456,8 +2456,9 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         super(_MeanStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.running_total = np.zeros(processed_chunk_shape,
-                                      dtype=self.array.dtype)
+        # Accumulate in floating point, as integers could wrap around.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_total = np.zeros(processed_chunk_shape, dtype=dtype)
 
     def finalise(self):
         array = self.running_total / self.array.shape[self.axis]
@@ -2478,9 +2479,11 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
 
     def bootstrap(self, processed_chunk_shape):
         shape = processed_chunk_shape
-        self.running_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_masked_count = np.zeros(shape, dtype=self.array.dtype)
-        self.running_total = np.zeros(shape, dtype=self.array.dtype)
+        # Accumulate in floating point, as integers could wrap around.
+        dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
+        self.running_count = np.zeros(shape, dtype=int)
+        self.running_masked_count = np.zeros(shape, dtype=int)
+        self.running_total = np.zeros(shape, dtype=dtype)
 
     def finalise(self):
         # Avoid any runtime-warning for divide by zero.
-- 
2.43.0


From 3a433e9711b826c6dd979e9dd58f45c88139e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 03/24] fix: keep the running std and var when a chunk has a
 single element

---
 biggus/_init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 87f0518..3677025 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2522,7 +2522,7 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
         super(_StdStreamsHandler, self).__init__(array, axis)
 
     def bootstrap(self, processed_chunk_shape):
-        self.k = 1
+        self.k = 0
         self._dtype = (np.zeros(1, dtype=self.array.dtype) / 1.).dtype
         self.q = np.zeros(processed_chunk_shape, dtype=self._dtype)
 
@@ -2538,7 +2538,8 @@ class _StdStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         data = np.rollaxis(data, self.axis).astype(self._dtype)
 
-        if self.k == 1:
+        if self.k == 0:
+            self.k = 1
             self.a = data[0]
             data = data[1:]
 
-- 
2.43.0


From c89b10fd2918fd0aae8c8213d31acedc1ea2fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 04/24] fix: only share or combine evaluation nodes which have
 the same chunks

---
 biggus/_init.py | 60 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3677025..3b1d4fe 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -172,6 +172,18 @@ class ProducerNode(Node):
             key = tuple(key[i] for i in inverse_order)
             yield key
 
+    @staticmethod
+    def chunking(shape, iteration_order):
+        """
+        Describe the sequence of keys which comes from `chunk_index_gen`.
+
+        The order of the dimensions which aren't divided is irrelevant.
+
+        """
+        all_cuts = _all_slices_inner(shape, always_slices=True)
+        divided = tuple(i for i in iteration_order if len(all_cuts[i]) > 1)
+        return (tuple(shape), divided)
+
     def run(self):
         """
         Emit the Chunk instances which cover the underlying Array.
@@ -296,6 +308,8 @@ class StreamsHandlerNode(ConsumerNode):
         return self.streams_handler.input_iteration_order(iteration_order)
 
     def process_chunks(self, chunks):
+        if any(chunk.keys != chunks[0].keys for chunk in chunks):
+            raise RuntimeError('inputs have different chunks')
         return self.streams_handler.process_chunks(chunks)
 
 
@@ -362,21 +376,59 @@ class AllThreadedEngine(Engine):
             self.arrays = arrays
             self.indices = indices
             self._node_cache = {}
+            self._chunking_cache = {}
 
         def __repr__(self):
             return 'Group({}, {})'.format(self.arrays, self.indices)
 
-        def _make_node(self, array, iteration_order, masked):
-            cache_key = id(array)
+        def _chunking(self, array, iteration_order, masked):
+            """
+            Describe the sequence of Chunks which represents an Array.
+
+            Wherever the descriptions are equal the sequences have equal
+            keys, in the same order.
+
+            """
+            cache_key = (id(array), tuple(iteration_order), masked)
+            if cache_key not in self._chunking_cache:
+                chunking = ProducerNode.chunking(array.shape, iteration_order)
+                if hasattr(array, 'streams_handler'):
+                    handler = array.streams_handler(masked)
+                    order = handler.input_iteration_order(iteration_order)
+                    inputs = [self._chunking(input_array, order, masked)
+                              for input_array in array.sources]
+                    if all(item == inputs[0] for item in inputs):
+                        chunking = inputs[0]
+                        if hasattr(handler, 'axis'):
+                            chunking = (handler.axis, chunking)
+                # NB. Keeping hold of the array ensures its id isn't reused.
+                self._chunking_cache[cache_key] = (array, chunking)
+            return self._chunking_cache[cache_key][1]
+
+        def _make_node(self, array, iteration_order, masked, streamed=True):
+            if streamed:
+                chunking = self._chunking(array, iteration_order, masked)
+            else:
+                chunking = ProducerNode.chunking(array.shape, iteration_order)
+            # Only share a node where its Chunks are in the right order.
+            cache_key = (id(array), chunking, masked)
             node = self._node_cache.get(cache_key, None)
             if node is None:
-                if hasattr(array, 'streams_handler'):
+                if streamed and hasattr(array, 'streams_handler'):
                     node = StreamsHandlerNode(array,
                                               array.streams_handler(masked))
                     iteration_order = node.input_iteration_order(
                         iteration_order)
+                    # The inputs are processed in lock-step, so if they
+                    # don't have the same Chunks by nature we need to ask
+                    # for the relevant part of each one as a whole.
+                    chunkings = [self._chunking(input_array,
+                                                iteration_order, masked)
+                                 for input_array in array.sources]
+                    streamed = all(item == chunkings[0] for item in chunkings)
                     input_nodes = [self._make_node(input_array,
-                                                   iteration_order, masked)
+                                                   iteration_order, masked,
+                                                   streamed)
                                    for input_array in array.sources]
                     node.add_input_nodes(input_nodes)
                 else:
-- 
2.43.0


From 4a6ea9489b47c0f72a448a47399b03aed094904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 05/24] fix: let evaluation end when one of several results
 fails

---
 biggus/_init.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 3b1d4fe..784e1cf 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -262,21 +262,33 @@ class ConsumerNode(Node):
         """Process one chunk from each input node."""
         pass
 
+    @staticmethod
+    def _unended(queues, items):
+        """Return the queues whose latest item wasn't their last."""
+        return [queue for queue, item in zip(queues, items)
+                if item is not QUEUE_ABORT and item is not QUEUE_FINISHED]
+
     def run(self):
         """
         Process the input queues in lock-step, and push any results to
         the registered output queues.
 
         """
+        # The input queues which have yet to send their last item.
+        pending = self.input_queues
         try:
             while True:
                 input_chunks = [input.get() for input in self.input_queues]
                 for input in self.input_queues:
                     input.task_done()
+                pending = self._unended(self.input_queues, input_chunks)
                 if any(chunk is QUEUE_ABORT for chunk in input_chunks):
                     self.abort()
                     return
                 if any(chunk is QUEUE_FINISHED for chunk in input_chunks):
+                    if pending:
+                        raise RuntimeError('inputs have different numbers '
+                                           'of chunks')
                     break
                 self.output(self.process_chunks(input_chunks))
             # Finalise the final chunk (process_chunks does this for all
@@ -288,6 +300,13 @@ class ConsumerNode(Node):
         else:
             for queue in self.output_queues:
                 queue.put(QUEUE_FINISHED)
+        finally:
+            # Discard any remaining input, so that the input nodes aren't
+            # left waiting for space in a full queue. They might have
+            # other nodes to feed.
+            while pending:
+                pending = self._unended(pending,
+                                        [input.get() for input in pending])
 
 
 class StreamsHandlerNode(ConsumerNode):
-- 
2.43.0


From c4df29c8bb4ac40543d93a40b7c4202606173e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 06/24] fix: report errors from contained arrays instead of
 dropping their masks

---
 biggus/_init.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 784e1cf..0a69ad5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -781,9 +781,9 @@ class ArrayContainer(Array):
         return self.array.__getitem__(keys)
 
     def ndarray(self):
-        try:
+        if hasattr(self.array, 'ndarray'):
             return self.array.ndarray()
-        except AttributeError:
+        else:
             return np.array(self.array)
 
     @property
@@ -791,9 +791,9 @@ class ArrayContainer(Array):
         return self.array.__array_priority__
 
     def masked_array(self):
-        try:
+        if hasattr(self.array, 'masked_array'):
             return self.array.masked_array()
-        except AttributeError:
+        else:
             return np.ma.masked_array(self.array)
 
 
-- 
2.43.0


From 15692e503aa4d63d106cddd3a8ea5fd605785e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 07/24] fix: give elementwise results their declared dtype and
 rank

---
 biggus/_init.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 0a69ad5..49e6839 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3010,9 +3010,10 @@ def var(a, axis=None, ddof=0):
 
 
 class _ElementwiseStreamsHandler(_StreamsHandler):
-    def __init__(self, sources, operator):
+    def __init__(self, sources, operator, dtype):
         self.sources = sources
         self.operator = operator
+        self.dtype = dtype
 
     def finalise(self):
         pass
@@ -3022,6 +3023,8 @@ class _ElementwiseStreamsHandler(_StreamsHandler):
 
     def process_chunks(self, chunks):
         array = self.operator(*[chunk.data for chunk in chunks])
+        if array.dtype != self.dtype:
+            array = array.astype(self.dtype)
         chunk = Chunk(chunks[0].keys, array)
         return chunk
 
@@ -3121,7 +3124,8 @@ class _Elementwise(ComputedArray):
     def ndarray(self):
         np_operands = ndarrays(self.sources)
         result = self._numpy_op(*np_operands)
-        return result
+        # Ensure we have an array (even for 0 dimensions) of our own dtype.
+        return np.asarray(result, dtype=self.dtype)
 
     def masked_array(self):
         if self._ma_op is None:
@@ -3129,7 +3133,8 @@ class _Elementwise(ComputedArray):
                             ''.format(self._numpy_op.__name__))
         ma_operands = masked_arrays(self.sources)
         result = self._ma_op(*ma_operands)
-        return result
+        # Ensure we have an array (even for 0 dimensions) of our own dtype.
+        return ma.asarray(result, dtype=self.dtype)
 
     def streams_handler(self, masked):
         if masked:
@@ -3139,7 +3144,7 @@ class _Elementwise(ComputedArray):
             operator = self._ma_op
         else:
             operator = self._numpy_op
-        return _ElementwiseStreamsHandler(self.sources, operator)
+        return _ElementwiseStreamsHandler(self.sources, operator, self.dtype)
 
 
 def _unary_fn_wrapper(name, function_to_wrap, masked_equivalent=None,
-- 
2.43.0


From 99e898d5ab71d1c5bf114c0d7184cea2f3bbd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 08/24] fix: keep the dtype of an elementwise expression when
 it is indexed

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 49e6839..a09aaa9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3119,6 +3119,8 @@ class _Elementwise(ComputedArray):
         else:
             result = _Elementwise(self._array1[keys], self._array2[keys],
                                   self._numpy_op, self._ma_op)
+        # The dtype can depend on the original operands (e.g. Python ints).
+        result._dtype = self._dtype
         return result
 
     def ndarray(self):
-- 
2.43.0


From c0caec6c9824a0e069e8d17268045a3d102582ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 09/24] fix: index mosaics by negative, out of range, boolean
 and reversed keys

---
 biggus/_init.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a09aaa9..41ed34e 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2044,6 +2044,12 @@ class LinearMosaic(Array):
             self._cached_shape = tuple(shape)
         return self._cached_shape
 
+    def _positive_index(self, index, size):
+        if not -size <= index < size:
+            raise IndexError('index {} is out of bounds for axis {} with size '
+                             '{}'.format(index, self._axis, size))
+        return index + size if index < 0 else index
+
     def _getitem_full_keys(self, full_keys):
         # Starting backwards, include all keys once a ``key != slice(None)``
         # has been found. This will give us only the keys that are really
@@ -2070,12 +2076,14 @@ class LinearMosaic(Array):
             offsets = np.cumsum([0] + axis_lengths[:-1])
             splits = offsets - 1
             axis_key = keys[axis]
+            size = self.shape[axis]
             if _is_scalar(axis_key):
                 # Find the single relevant tile
-                tile_index = np.searchsorted(splits, axis_key) - 1
+                axis_index = self._positive_index(axis_key, size)
+                tile_index = np.searchsorted(splits, axis_index) - 1
                 tile = self._tiles[tile_index]
                 tile_indices = list(keys)
-                tile_indices[axis] -= offsets[tile_index]
+                tile_indices[axis] = axis_index - offsets[tile_index]
                 result = tile[tuple(tile_indices)]
             elif isinstance(axis_key, (slice, collections.Iterable)) and \
                     not isinstance(axis_key, six.string_types):
@@ -2083,10 +2091,13 @@ class LinearMosaic(Array):
                 # NB. If the stride is large enough, this might not be a
                 # contiguous subset of self._tiles.
                 if isinstance(axis_key, slice):
-                    size = self.shape[axis]
                     all_axis_indices = range(*axis_key.indices(size))
                 else:
-                    all_axis_indices = tuple(axis_key)
+                    if isinstance(axis_key, np.ndarray) and \
+                            axis_key.dtype == np.dtype('bool'):
+                        axis_key = np.flatnonzero(axis_key)
+                    all_axis_indices = tuple(self._positive_index(index, size)
+                                             for index in axis_key)
                 tile_indices = np.searchsorted(splits, all_axis_indices) - 1
                 pairs = zip(all_axis_indices, tile_indices)
                 i = itertools.groupby(pairs, lambda axis_tile: axis_tile[1])
@@ -2109,9 +2120,11 @@ class LinearMosaic(Array):
                         tile_slice[axis] = axis_indices
 
                     tiles.append(tile[tuple(tile_slice)])
-                if isinstance(axis_key, slice) and \
-                        axis_key.step is not None and axis_key.step < 0:
-                    tiles.reverse()
+                if not tiles:
+                    # Nothing was selected, but we still need a tile to
+                    # define the other dimensions.
+                    tile_slice[axis] = slice(0, 0)
+                    tiles.append(self._tiles[0][tuple(tile_slice)])
                 # Adjust the axis of the new mosaic to account for any
                 # scalar keys prior to our current mosaic axis.
                 new_axis = axis
-- 
2.43.0


From 9feb9c99111e377c29835427c802a9eba04e2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 10/24] fix: reject out of range indices of constant and
 broadcast dimensions

---
 biggus/_init.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 41ed34e..cad3a6b 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3308,6 +3308,12 @@ ceil = _ufunc_wrapper(np.ceil)
 trunc = _ufunc_wrapper(np.trunc)
 
 
+def _check_index(index, size, axis):
+    if not -size <= index < size:
+        raise IndexError('index {} is out of bounds for axis {} with size {}'
+                         ''.format(index, axis, size))
+
+
 def _sliced_shape(shape, keys):
     """
     Returns the shape that results from slicing an array of the given
@@ -3326,6 +3332,7 @@ def _sliced_shape(shape, keys):
     for key in keys:
         shape_dim += 1
         if _is_scalar(key):
+            _check_index(key, shape[shape_dim], shape_dim)
             continue
         elif isinstance(key, slice):
             size = len(range(*key.indices(shape[shape_dim])))
@@ -3334,6 +3341,8 @@ def _sliced_shape(shape, keys):
             # Numpy boolean indexing.
             sliced_shape.append(builtins.sum(key))
         elif isinstance(key, (tuple, np.ndarray)):
+            for index in key:
+                _check_index(index, shape[shape_dim], shape_dim)
             sliced_shape.append(len(key))
         elif key is np.newaxis:
             shape_dim -= 1
-- 
2.43.0


From 61061fc98f44f30a1bb813855f8fffea57ac4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 11/24] fix: keep the cleaned up keys of an adapter

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index cad3a6b..a90dd01 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1393,7 +1393,7 @@ class _ArrayAdapter(Array):
         result_keys = []
         for axis, (key, size) in enumerate(zip(keys, concrete.shape)):
             result_key = self._cleanup_new_key(key, size, axis)
-            result_keys.append(key)
+            result_keys.append(result_key)
         self._keys = tuple(result_keys)
 
     @property
@@ -1436,6 +1436,7 @@ class _ArrayAdapter(Array):
                       'of size {0} is greater than axis {1} with ' \
                       'size {2}'.format(key.size, axis, size)
                 raise IndexError(msg)
+            key = tuple(np.flatnonzero(key))
         elif isinstance(key, collections.Iterable) and \
                 not isinstance(key, six.string_types):
             # Make sure we capture the values in case we've
-- 
2.43.0


From 2a9ed3055b8ac5b5effb5359190a4201d63b0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 12/24] fix: apply index sequences independently of integer
 indices

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a90dd01..2b3ce95 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1583,7 +1583,7 @@ class NumpyArrayAdapter(_ArrayAdapter):
         keys = self._keys
         tuple_keys = [(i, key) for i, key in enumerate(keys)
                       if isinstance(key, tuple)]
-        if len(tuple_keys) > 1:
+        if len(tuple_keys) > 1 or (tuple_keys and any(map(_is_scalar, keys))):
             # Since we're potentially dealing with very large datasets
             # we want to cut down the array as much as possible in the
             # first iteration.
-- 
2.43.0


From f8d4afa57f4c3dea8cd5b4b0d0a2d03cd0bcb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 13/24] fix: let dask task graphs be executed repeatedly

---
 biggus/experimental/dask_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/experimental/dask_engine.py b/biggus/experimental/dask_engine.py
index dcc0f1b..38fc22f 100644
--- a/biggus/experimental/dask_engine.py
+++ b/biggus/experimental/dask_engine.py
@@ -140,8 +140,10 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
         return biggus._init.Chunk(chunk_key, array)
 
     @staticmethod
-    def create_chunks_handler_fn(handler, n_sources, nicename):
+    def create_chunks_handler_fn(array, masked, n_sources, nicename):
         def produce_chunks(produced_keys, *all_chunks):
+            # Handlers are stateful, so we need a new one for each execution.
+            handler = array.streams_handler(masked)
             all_chunks = list(_groups_of_size(all_chunks, n_sources))
             process_result = None
             for chunks in all_chunks:
@@ -260,7 +262,8 @@ class DaskGroup(biggus._init.AllThreadedEngine.Group):
                 name = handler.operator.__name__
 
             n_sources = len(array.sources)
-            handler_of_chunks_fn = self.create_chunks_handler_fn(handler,
+            handler_of_chunks_fn = self.create_chunks_handler_fn(sub_array,
+                                                                 masked,
                                                                  n_sources,
                                                                  name)
 
-- 
2.43.0


From c1f8f0d64d6501fef4a3f18ebfb68ee0082082fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 14/24] fix: reject inconsistent arrays which are assigned into
 a stack

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2b3ce95..64ae886 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1891,6 +1891,8 @@ class ArrayStack(Array):
         for key in keys:
             assert _is_scalar(key)
         assert isinstance(value, Array), type(value)
+        if value.shape != self._item_shape or value.dtype != self._dtype:
+            raise ValueError('invalid sub-array')
         self._stack[keys] = value
 
     def ndarray(self):
-- 
2.43.0


From 1aeddabd91cac3dba0652c3d2f866341691392a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 15/24] fix: convert new-axes arrays without any axes to arrays
 instead of scalars

---
 biggus/_init.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 64ae886..57408f1 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -925,11 +925,11 @@ class NewAxesArray(ArrayContainer):
 
     def ndarray(self):
         array = super(NewAxesArray, self).ndarray()
-        return array.__getitem__(self._newaxis_keys())
+        return array[self._newaxis_keys() + (Ellipsis,)]
 
     def masked_array(self):
         array = super(NewAxesArray, self).masked_array()
-        return array.__getitem__(self._newaxis_keys())
+        return array[self._newaxis_keys() + (Ellipsis,)]
 
 
 @export
-- 
2.43.0


From 8ea32e27be8f548dde4a07506e5c6b0d50edaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 16/24] fix: accept one-shot iterables as the aggregation axis

---
 biggus/_init.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 57408f1..9e672f5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2793,10 +2793,13 @@ def _normalise_axis(axis, array):
     elif _is_scalar(axis):
         axes = (axis,)
     elif (isinstance(axis, collections.Iterable) and
-            not isinstance(axis, (six.string_types, collections.Mapping)) and
-            all(map(_is_scalar, axis))):
+            not isinstance(axis, (six.string_types, collections.Mapping))):
+        # Capture the items before they are checked, as the iterable may only
+        # be iterated once.
         axes = tuple(axis)
     else:
+        axes = (axis,)
+    if axes is not None and not all(map(_is_scalar, axes)):
         raise TypeError('axis must be None, int, or iterable of ints')
     if axes is not None:
         axes = tuple(axis if axis >= 0 else array.ndim + axis for axis in axes)
-- 
2.43.0


From 9bf12edf96412e7edb0eccee7cbdc0f45b874ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 17/24] fix: count negative axes of a transposed array from the
 last axis

---
 biggus/_init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 9e672f5..2c9a9a9 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1697,6 +1697,9 @@ class TransposedArray(ArrayContainer):
             axes = np.arange(array.ndim)[::-1]
         elif len(axes) != array.ndim:
             raise ValueError('Incorrect number of dimensions.')
+        if any(axis < 0 for axis in axes):
+            # Negative axes count from the last axis.
+            axes = [axis + array.ndim if axis < 0 else axis for axis in axes]
         self.axes = axes
         self._forward_axes_map = {src: dest for dest, src in enumerate(axes)}
         self._inverse_axes_map = {dest: src for dest, src in enumerate(axes)}
-- 
2.43.0


From 64b2e4db0a84f7d115b3a22e1a0412f2105116c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 18/24] fix: raise ValueError for tiles of lower rank than the
 mosaic axis

---
 biggus/_init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 2c9a9a9..5293576 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2014,6 +2014,8 @@ class LinearMosaic(Array):
         for tile in tiles[1:]:
             if not isinstance(tile, Array):
                 raise ValueError('sub-array must be subclass of Array')
+            if tile.ndim != first.ndim:
+                raise ValueError('inconsistent tile shapes')
             shape = list(tile.shape)
             del shape[axis]
             if shape != common_shape:
-- 
2.43.0


From 196249dd5ad945155c1090a5d60a47edba227832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 19/24] fix: capture one-shot iterables used to index several
 arrays at once

---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index 5293576..a1b2083 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -3378,8 +3378,10 @@ def _full_keys(keys, ndim):
     if not isinstance(keys, tuple):
         keys = (keys,)
 
-    # Make keys mutable, and take a copy.
-    keys = list(keys)
+    # Make keys mutable, and take a copy. Capture the values of any one-shot
+    # iterables, as one key may be used to index several arrays.
+    keys = [tuple(key) if isinstance(key, collections.Iterator) else key
+            for key in keys]
 
     # Count the number of keys which actually slice a dimension.
     n_keys_non_newaxis = len([key for key in keys if key is not np.newaxis])
-- 
2.43.0


From 5cf03092911b41630da195245685c02675c78aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 20/24] fix: masked sums of arrays that have no masked elements

---
 biggus/_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index a1b2083..34ee8c4 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2535,7 +2535,7 @@ class _SumMaskedStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.mask &= np.all(data.mask, axis=self.axis)
+        self.mask &= np.all(ma.getmaskarray(data), axis=self.axis)
         self.running_total += np.sum(data.filled(0), axis=self.axis)
 
 
-- 
2.43.0


From b228add08324c89d89ef58c139b10247e1ba4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 21/24] fix: a single masked element of an adapted array lost
 its dtype

---
 biggus/_init.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index 34ee8c4..d5cc920 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1544,6 +1544,9 @@ class _ArrayAdapter(Array):
 
     def ndarray(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # A single masked element doesn't have the dtype of its source.
+            array = np.array(self.fill_value, dtype=self.dtype)
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
@@ -1555,6 +1558,9 @@ class _ArrayAdapter(Array):
 
     def masked_array(self):
         array = self._apply_keys()
+        if array is ma.masked:
+            # A single masked element doesn't have the dtype of its source.
+            array = ma.masked_all((), dtype=self.dtype)
         # We want the shape of the result to match the shape of the
         # Array, so where we've ended up with an array-scalar,
         # "inflate" it back to a 0-dimensional array.
-- 
2.43.0


From 220f3aea12c1f002502d430661fc5d0ba20538c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 22/24] fix: plain conversion of masked elements selected by
 index sequences

---
 biggus/_init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/biggus/_init.py b/biggus/_init.py
index d5cc920..e0c4d11 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -1616,8 +1616,12 @@ class NumpyArrayAdapter(_ArrayAdapter):
                 # need to implement `take` or `__array__`.)
                 array = self.concrete[...]
             # ... and then do each tuple in turn.
+            # NB. np.take() doesn't keep the fill_value of a masked array.
+            fill_value = getattr(array, 'fill_value', None)
             for i, key in tuple_keys:
                 array = np.take(array, key, axis=dimensions[i])
+            if fill_value is not None:
+                array.fill_value = fill_value
         else:
             array = self.concrete.__getitem__(keys)
         return array
-- 
2.43.0


From 02766a732e1c569a67de1eae9cdec57a5fb6cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 23/24] fix: mask std and var where there are fewer elements
 than ddof

---
 biggus/_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index e0c4d11..eb1ce95 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2682,7 +2682,8 @@ class _StdMaskedStreamsHandler(_AggregationStreamsHandler):
         self.current_shape = processed_chunk_shape
 
     def finalise(self):
-        mask = self.running_count == 0
+        # Mask where there isn't enough data for the requested `ddof`.
+        mask = (self.running_count == 0) | (self.running_count <= self.ddof)
         denominator = ma.array(self.running_count, mask=mask) - self.ddof
         q = ma.array(self.q, mask=mask) / denominator
         array = ma.sqrt(q)
-- 
2.43.0


From fb05a5b544ae579d88db39ada2a4680905cf8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 24/24] fix: sum integers in floating point within a chunk for
 means

The total of one chunk was still computed in the integer type, so means
of large integers could wrap around.
---
 biggus/_init.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/biggus/_init.py b/biggus/_init.py
index eb1ce95..c0fb0f5 100644
--- a/biggus/_init.py
+++ b/biggus/_init.py
@@ -2571,7 +2571,8 @@ class _MeanStreamsHandler(_AggregationStreamsHandler):
         return chunk
 
     def process_data(self, data):
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
@@ -2608,7 +2609,8 @@ class _MeanMaskedStreamsHandler(_AggregationStreamsHandler):
     def process_data(self, data):
         self.running_count += np.ma.count(data, axis=self.axis)
         self.running_masked_count += np.ma.count_masked(data, axis=self.axis)
-        self.running_total += np.sum(data, axis=self.axis)
+        self.running_total += np.sum(data, axis=self.axis,
+                                     dtype=self.running_total.dtype)
 
 
 class _StdStreamsHandler(_AggregationStreamsHandler):
-- 
2.43.0

