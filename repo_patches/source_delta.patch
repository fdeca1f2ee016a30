From 5d9c54da112479474ab081bada43f0b1e5f3b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 01/61] fix: restore connections when an error occurs while
 temporarily unpatched

---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..ee3d97d 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From 19ef04265b59abda8a0530311047f10d9c09461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 02/61] fix: determine internal composite order without loops
 via the composite itself

---
 klang/composite.py |  5 +----
 klang/execution.py | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index ee3d97d..de6522f 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -71,10 +71,7 @@ class Composite(Block):
             blocks = introspect(self)
 
         with temporarily_unpatch(self):
-            execOrder = determine_execution_order(blocks)
-
-        while self in execOrder:
-            execOrder.remove(self)
+            execOrder = determine_execution_order(blocks, exclude=[self])
 
         self.execOrder = execOrder
 
diff --git a/klang/execution.py b/klang/execution.py
index 6e7d16a..3a45d93 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -5,7 +5,7 @@ from klang.block import input_neighbors, output_neighbors
 from klang.graph import graph_matrix, topological_sorting
 
 
-def traverse_network(blocks):
+def traverse_network(blocks, exclude=()):
     """Traverse block network and collect vertices and edges. Vertices are
     returned as a list, not as a set, for preserving sequence order / better
     edge case handling.
@@ -13,6 +13,9 @@ def traverse_network(blocks):
     Args:
         blocks (iterable): Starting blocks for graph traversal.
 
+    Kwargs:
+        exclude (iterable): Blocks not to visit.
+
     Returns:
         tuple: Network vertices and edges.
     """
@@ -21,23 +24,25 @@ def traverse_network(blocks):
     queue = collections.deque(blocks)
     while queue:
         block = queue.popleft()
-        if block not in vertices:
+        if block not in vertices and block not in exclude:
             vertices.append(block)
             for successor in output_neighbors(block):
-                edges.add((block, successor))
-                queue.append(successor)
+                if successor not in exclude:
+                    edges.add((block, successor))
+                    queue.append(successor)
 
             for predecessor in input_neighbors(block):
-                edges.add((predecessor, block))
-                queue.append(predecessor)
+                if predecessor not in exclude:
+                    edges.add((predecessor, block))
+                    queue.append(predecessor)
 
     return vertices, edges
 
 
-def determine_execution_order(blocks):
+def determine_execution_order(blocks, exclude=()):
     """Get appropriate execution order for block network."""
     blocks = list(blocks)
-    vertices, edges = traverse_network(blocks)
+    vertices, edges = traverse_network(blocks, exclude)
     if not edges:
         return vertices
 
-- 
2.43.0


From a829dbc517c16e2f4a64e7c44d74a6794eadc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 03/61] fix: delay effect overwrites its delayed samples before
 mixing them

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..ae7d445 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,7 +169,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From 99714431508fc2c2e8aa9dff1d416a0b46daae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 04/61] fix: validate delay time of note values in seconds

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index ae7d445..1c802c0 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From 1ad3bfcd1edd6dd88aed96bd08707e63df25de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 05/61] fix: comb filters misread non-contiguous input samples

---
 klang/audio/_filters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..910d2a2 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -198,7 +198,7 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
-- 
2.43.0


From 9b11926f67591225f7304d699947950d42e52771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 06/61] fix: comb filters crash on input which is not
 convertible to an array

---
 klang/audio/_filters.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 910d2a2..0d79514 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -199,6 +199,10 @@ parse_input_array(PyObject *args)
     }
 
     inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (!inArray) {
+        return NULL;
+    }
+
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
-- 
2.43.0


From d3be427623781b5e8ab839bf214e9589cf104675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 07/61] fix: comb filters leak a reference to every input array

---
 klang/audio/_filters.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 0d79514..6d82192 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -205,6 +205,7 @@ parse_input_array(PyObject *args)
 
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -244,6 +245,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -254,6 +256,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -270,6 +273,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -280,6 +284,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -296,6 +301,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -306,6 +312,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From d7a802cff8ca0c21b87b9aa5bb81861bbffa442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 08/61] fix: reject comb filter lengths below one sample

---
 klang/audio/_filters.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 6d82192..ce9f240 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -121,6 +121,11 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
         return NULL;
     }
 
+    if (length < 1) {
+        PyErr_SetString(PyExc_ValueError, "length has to be at least 1!");
+        return NULL;
+    }
+
     RingBufferFilterObject *self;
     self = (RingBufferFilterObject *) type->tp_alloc(type, 0);
     if (!self) {
@@ -132,6 +137,7 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
     self->ringBuffer = RingBuffer_create(length);
     if (!self->ringBuffer) {
         PyErr_SetString(PyExc_RuntimeError, "Could not initialize RingBuffer!");
+        Py_DECREF(self);
         return NULL;
     }
 
-- 
2.43.0


From e8e24b68293d7d4d7491343280a787dc74891d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 09/61] fix: envelope constructor writes int flags over one
 byte bool members

---
 klang/audio/_envelope.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 03f469f..158fb67 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -523,12 +523,16 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
         "attack", "decay", "sustain", "release", "dt", "overshoot", "retrigger",
         "loop", NULL
     };
+    int retrigger = self->retrigger;  // Format unit 'p' expects int
+    int loop = self->loop;
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ddddd|dpp", kwlist, &self->attack,
                 &self->decay, &self->sustain, &self->release, &self->dt, &self->overshoot,
-                &self->retrigger, &self->loop)
+                &retrigger, &loop)
     )
         return -1;
 
+    self->retrigger = retrigger;
+    self->loop = loop;
     self->overshoot = clip(self->overshoot, 1e-9, 1e9);  // Headroom
     Envelope_compute_base_values_and_coefficients(self);
     return 0;
-- 
2.43.0


From b519a2419f0150471a009eb45c675e234781ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 10/61] fix: propagate error of envelope gate argument without
 truth value

---
 klang/audio/_envelope.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 158fb67..bb9f9ed 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -553,7 +553,10 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
 static PyObject *
 Envelope_gate(Envelope *self, PyObject *args)
 {
-    bool trigger = PyObject_IsTrue(args);
+    int trigger = PyObject_IsTrue(args);
+    if (trigger < 0)
+        return NULL;
+
     if (DEBUG) printf("Envelope_gate(%i)\n", trigger);
     if (trigger) {
         self->enabled = true;
-- 
2.43.0


From 0a44a88227e6799f3210f8796f38340b6f446a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 11/61] fix: pure Python envelope drops the incomplete last
 buffer of every stage

---
 klang/audio/envelope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 89d8502..92345eb 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -371,10 +371,10 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self):
+    def go_to_next_stage(self, prepend=None):
         """Advance to next envelope stage."""
         nextStage = self.determine_next_stage()
-        self.switch_stage(nextStage)
+        self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
         """Get next BUFFER_SIZE envelope samples.
@@ -387,7 +387,7 @@ class Envelope:
         """
         samples, self.value = next(self.sampleGenerator)
         while generator_finished(samples):
-            self.go_to_next_stage()
+            self.go_to_next_stage(prepend=samples)
             samples, self.value = next(self.sampleGenerator)
 
         return samples
-- 
2.43.0


From db2071185dcbd62a4e2efba7b8b1ee3dab5e6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 12/61] fix: pure Python envelope curves leave the range
 between start and target

---
 klang/audio/envelope.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 92345eb..43f14cf 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -135,8 +135,9 @@ def calculate_transfer_function(duration, overshoot=DEFAULT_OVERSHOOT):
         tuple: Transfer function coefficients.
     """
     coeff = calculate_coefficient(duration, overshoot)
-    numerator = (coeff, )
-    denominator = (1., coeff - 1.)
+    alpha = 1. - math.exp(-coeff)
+    numerator = (alpha, )
+    denominator = (1., alpha - 1.)
     return numerator, denominator
 
 
@@ -182,7 +183,7 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     # Arguments for lfilter
     tf = calculate_transfer_function(rate, overshoot)
     targetArr = full(BUFFER_SIZE, target + sign(target - start) * overshoot)
-    zi = [start]
+    zi = [start - tf[0][0] * targetArr[0]]  # First sample is start
 
     # Prepend samples to first output
     if prepend is not None:
@@ -194,7 +195,7 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             yield samples, target
             return
 
-        yield samples, zi[0]
+        yield samples, samples[-1]
         nSamples -= available
 
     assert nSamples >= 0
@@ -202,11 +203,11 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     fullCycles, remainder = divmod(nSamples, BUFFER_SIZE)
     for _ in range(fullCycles):
         samples, zi = lfilter(*tf, targetArr, zi=zi)
-        yield samples, zi[0]
+        yield samples, samples[-1]
 
     if remainder > 0:
         samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
-        yield samples, zi[0]
+        yield samples, samples[-1]
     else:
         yield SENTINEL_ARRAY, target
 
-- 
2.43.0


From 691f072dc54fc3b9968a1b7e5d3c2545569ca859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 13/61] fix: chirp phase jumps at the first buffer after the
 chirp

---
 klang/audio/oscillators.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..c755819 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -20,22 +20,15 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if (tEnd <= 0) or (freqStart == freqEnd):
         # Only constant frequency
         return TAU * freqEnd * t
 
-    phase = _chirp_phase(t, f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
-                         vertex_zero=vertex_zero)
-    if t[-1] < tEnd:
-        # Only chirping
-        return phase
+    phase = _chirp_phase(np.minimum(t, tEnd), f0=freqStart, t1=tEnd, f1=freqEnd,
+                         method=method, vertex_zero=vertex_zero)
 
-    # Mixture between chirp and constant frequency
-    constFreq = (t >= tEnd)
-    mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
-    return phase
+    # Continue with constant frequency from the phase reached at tEnd
+    return phase + TAU * freqEnd * np.maximum(t - tEnd, 0.)
 
 
 def sample_phase(frequency, startPhase=0.):
-- 
2.43.0


From 079e72ae74809d5d5eecbe442f508de183d1a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 14/61] fix: random wave function fails for scalar phases

---
 klang/audio/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/waves.py b/klang/audio/waves.py
index bcbc65f..fa817e8 100644
--- a/klang/audio/waves.py
+++ b/klang/audio/waves.py
@@ -41,7 +41,7 @@ def triangle(phase):
 
 def random(phase):
     """Uniform random wave function."""
-    return 2. * np.random.random(size=phase.shape) - 1.
+    return 2. * np.random.random(size=np.shape(phase)) - 1.
 
 
 WAVE_FUNCTIONS = {
-- 
2.43.0


From ae9d90002a32d861620a667093bded3b7161999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 15/61] fix: copies of FM oscillators restart the modulator at
 phase zero

---
 klang/audio/oscillators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index c755819..26a720e 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -218,13 +218,15 @@ class FmOscillator(Oscillator):
         self.output.set_value(samples)
 
     def __deepcopy__(self, memo):
-        return type(self)(
+        other = type(self)(
             frequency=self.frequency.value,
             intensity=self.intensity,
             modFrequency=self.modulator.frequency.value,
             wave_func=self.wave_func,
             startPhase=self.currentPhase,
         )
+        other.modulator.currentPhase = self.modulator.currentPhase
+        return other
 
 
 class PwmOscillator(Phasor):
-- 
2.43.0


From f43363b3ab79bebdbff8132492f10eda1476b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 16/61] fix: looped samples are played out of order at the loop
 point

---
 klang/audio/sampling.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..099b2d3 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -267,22 +267,16 @@ class Sample:
         """Sample callback. Get some new samples for resampler."""
         start = self.currentIndex
         stop = start + nFrames
-        reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
-
-        self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        if self.loop and stop >= self.stop:
+            # Wrap around within [self.start, self.stop)
+            length = self.stop - self.start
+            offset = start - self.start
+            self.currentIndex = self.start + (offset + nFrames) % length
+            return self.data[self.start + (offset + np.arange(nFrames)) % length]
+
+        # Block at end for future uses
+        self.currentIndex = min(stop, self.stop)
+        return self.data[start:self.currentIndex]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 538090bc315ee9211c14ad5b5c838c9085558cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 17/61] fix: multi channel audio files output transposed
 samples

---
 klang/audio/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 099b2d3..dcdd29b 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -350,8 +350,7 @@ class AudioFile(Block):
 
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
-        samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
+        samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
     def __str__(self):
-- 
2.43.0


From da4574c2b39972a6564aae4cecef56eb435eb271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 18/61] fix: audio file stops before the resampler delivered
 the last samples

---
 klang/audio/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index dcdd29b..426905a 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -349,7 +349,8 @@ class AudioFile(Block):
             return self.mute_outputs()
 
         data = self.sample.read(BUFFER_SIZE)
-        self.playing = self.sample.playing
+        # Resampler may still hold samples after it fetched the last ones
+        self.playing = self.sample.playing or data.shape[0] == BUFFER_SIZE
         samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
-- 
2.43.0


From a203d9c6a8d17596617b119c69cc8e911b3e4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 19/61] fix: crude resampler changes dimensions of mono samples
 at the end

---
 klang/audio/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 426905a..f56d02e 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -143,7 +143,7 @@ class CrudeResampler:
         data = self.callback(nFrames=nSamplesNeeded)
         length = data.shape[0]
         if length == 0:
-            return np.zeros((0, self.channels))
+            return np.zeros(data.shape)
 
         # Shrink nFrames if we did not get enough samples from SampleProvider.
         nFrames = (nFrames * length) // nSamplesNeeded
-- 
2.43.0


From 742b32dd2c73dbbbbd3799f2cd7cbc8fd69a0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 20/61] fix: arpeggiator repeats the last note-off when it runs
 out of notes

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From 9f0ffe9faa28153d13df614c78eb3d4a356a4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 21/61] fix: one step patterns are never played

---
 klang/sequencer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..e7171d1 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -111,6 +111,7 @@ class PizzaSlicer(Block):
         self.outputs = [MessageOutput(owner=self)]
         self.nSlices = nSlices
         self.currentIdx = -1
+        self.previousPhase = 0.
 
     def increment(self):
         """Increment current index by one."""
@@ -120,6 +121,11 @@ class PizzaSlicer(Block):
         phase = self.input.value
         idx = pizza_slice_number(phase, self.nSlices)
         missing = (idx - self.currentIdx) % self.nSlices
+        if self.nSlices == 1:
+            # No edges to other slices. Use phase wrap instead.
+            missing = int(self.currentIdx == -1 or phase < self.previousPhase)
+
+        self.previousPhase = phase
         for _ in range(missing):
             self.increment()
             self.output.send(self.currentIdx)
-- 
2.43.0


From 61806a134e4ec247931ba286e303b2c42fb55538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 22/61] fix: number of sequencer channels ignores added
 channels

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index e7171d1..364d594 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -288,7 +288,7 @@ class Sequencer(Composite):
     @property
     def nChannels(self) -> int:
         """Number of channels."""
-        return len(self.pattern)
+        return len(self.sequences)
 
     def apply_micro_rhythm(self, microRhythm, channel):
         """Apply micro rhythm to all or one specific sequence(s)."""
-- 
2.43.0


From 6525164e8af82b6b5d9a1cb134853ad4617787e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 23/61] fix: polyphonic synthesizer misses note-off in the same
 buffer as its note-on

---
 klang/audio/synthesizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..d1cf164 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -202,6 +202,7 @@ class PolyphonicSynthesizer(Synthesizer):
             #print('Play new note', note)
             voice = next(self.freeVoice)
             voice.input.push(note)
+            voice.currentPitch = note.pitch  # Note-off could arrive before voice update
         else:
             #print('Kill old note', note)
             for voice in self.voices:
-- 
2.43.0


From c5cc344beada5a80ee8019ce1b0e9bebd84b9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 24/61] fix: polyphonic synthesizer steals sounding voices
 while others are free

---
 klang/audio/synthesizer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index d1cf164..bb668df 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -197,10 +197,19 @@ class PolyphonicSynthesizer(Synthesizer):
         self.voices = duplicate_voice(voice, self.MAX_VOICES)
         self.freeVoice = itertools.cycle(self.voices)
 
+    def next_voice(self):
+        """Get next voice for a new note. Steals one if all are active."""
+        for _ in self.voices:
+            voice = next(self.freeVoice)
+            if not voice.active:
+                return voice
+
+        return next(self.freeVoice)
+
     def process_note(self, note):
         if note.on:
             #print('Play new note', note)
-            voice = next(self.freeVoice)
+            voice = self.next_voice()
             voice.input.push(note)
             voice.currentPitch = note.pitch  # Note-off could arrive before voice update
         else:
-- 
2.43.0


From 2376c8c4c8ea60fe2eda4fd57c2694c369668b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 25/61] fix: kick drum sounds at start without any note

---
 klang/audio/synthesizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index bb668df..44b6e27 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -13,7 +13,7 @@ from klang.audio.waves import sample_wave
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
-from klang.constants import PI
+from klang.constants import INF, PI
 
 
 __all__ = ['MonophonicSynthesizer', 'PolyphonicSynthesizer', 'HiHat', 'Kick']
@@ -278,7 +278,7 @@ class Kick(Block):
         self.pitchDecay = pitchDecay
 
         self.inputs = [MessageInput(self)]
-        self.currentTime = 0.
+        self.currentTime = INF  # Silent until first note
         self.currentPhase = 0.
 
     def update(self):
-- 
2.43.0


From b4c64bea3fb3526972a8e75322a2128744b89e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 26/61] fix: audio clock fails to update

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..af2d57e 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        frequency = compute_rate(self.frequency.value)
+        phase = (TAU * frequency * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From 19ef5c9655498932e50a0edb6f10d1b730f80cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 27/61] fix: sequencer takes a list of pattern arrays for one
 single pattern

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 364d594..00c7ba3 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -89,7 +89,7 @@ def atleast_2d(obj) -> Pattern:
         return np.atleast_2d(obj)
 
     obj = atleast_1d(obj)
-    if not isinstance(obj[0], collections.abc.Sequence):
+    if not isinstance(obj[0], (collections.abc.Sequence, np.ndarray)):
         obj = [obj]
 
     return obj
-- 
2.43.0


From 1580e4167e25ab68387f0d4b7be295f597c9b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 28/61] fix: note-off of pitch zero makes idle voices of
 polyphonic synthesizer busy

---
 klang/audio/synthesizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 44b6e27..030938e 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -215,7 +215,7 @@ class PolyphonicSynthesizer(Synthesizer):
         else:
             #print('Kill old note', note)
             for voice in self.voices:
-                if voice.currentPitch == note.pitch:
+                if voice.active and voice.currentPitch == note.pitch:
                     voice.input.push(note)
 
     def update(self):
-- 
2.43.0


From 3a8ca0f87383ba4f4ba3f4201bf002ad91a8c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 29/61] fix: progress bar divides by zero for a single step

---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..9850489 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = max(0, min(1, i / max(1, self.length - 1)))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From 63ad39f41b9aa037eaed4337e5f0f6479fc5cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 30/61] fix: writing one dimensional mono audio to WAV files
 fails

---
 klang/audio/wavfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 0b5a614..b5850ca 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -55,6 +55,8 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     """Write mono / stereo audio to WAV file."""
     # TODO: 8 bit -> uint8, 24 bit -> ???, 32 bit -> int32
     audio = np.asarray(audio)
+    if audio.ndim == 1:
+        audio = audio[:, np.newaxis]
 
     # Scale to full Wertebereich of target bit depth.
     samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
-- 
2.43.0


From 7fa3ccbcd829f2516c165896f93a2dadadf985e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 31/61] fix: string representation of filters fails

---
 klang/audio/effects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 1c802c0..4d51241 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -274,9 +274,9 @@ class FilterCoefficients:
         return self.coefficients[i.clip(0, length-1)]
 
     def __str__(self):
-        infos = [self.coefficients.design_func.__name__]
-        infos.extend('%s' % arg for arg in self.coefficients.args)
-        infos.extend('%s=%s' % keyvalue for keyvalue in self.coefficients.kwargs.items())
+        infos = [self.design_func.__name__]
+        infos.extend('%s' % arg for arg in self.args)
+        infos.extend('%s=%s' % keyvalue for keyvalue in self.kwargs.items())
         return '%s(%s)' % (type(self).__name__, ', '.join(infos))
 
 
-- 
2.43.0


From d07df0bb6ef1b8254bcea097d2a27e430df024e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 32/61] fix: fade-out ignores the buffer in which it starts

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..de8f0d2 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -240,7 +240,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
 
-        if playTime >= fadeOutStart:
+        if fadeout > 0 and playTime + INTERVAL > fadeOutStart:
             outData *= fade_out_envelope(playTime)
 
         if filepath:
-- 
2.43.0


From 392cb8a069b7623ff943d9dfcd1c450816434dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 33/61] fix: tremolo amplifies after changes of smoothness or
 duty cycle

---
 klang/audio/effects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 4d51241..0ff9bb4 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -83,7 +83,7 @@ class Tremolo(Composite):
         smoothness: Value input for envelope shape.
         dutyCycle: dutyCycle relays to lfo.
         lfo: Pulse width modulation lfo.
-        zi: Low pass filter state.
+        zi: Low pass filter state (last output sample).
     """
 
     def __init__(self, rate: TimeOrNoteValue = 3., depth: float = .8,
@@ -122,10 +122,12 @@ class Tremolo(Composite):
 
         # Calculate AM-envelope
         decay = max(1e-6, smoothness * min(dutyCycle, 1. - dutyCycle))
-        coeffs = low_pass_coefficients(1. / decay)
+        b, a = low_pass_coefficients(1. / decay)
         self.lfo.update()
         pwm = self.lfo.output.value
-        filteredPwm, self.zi = scipy.signal.lfilter(*coeffs, pwm, zi=self.zi)
+        # Rescale filter state since the coefficients could have changed
+        filteredPwm, _ = scipy.signal.lfilter(b, a, pwm, zi=-a[1] * self.zi)
+        self.zi = filteredPwm[-1:]
         env = (1. - depth) + depth * (.5 + .5 * filteredPwm)
 
         # Apply
-- 
2.43.0


From bd8246307c5478d10d38d61646ed4af5043d2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 34/61] fix: send non-contiguous arrays over the network in
 their element order

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..28d6293 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From 7ba5af433bbe1fe0393123dc6a751af2d819f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 35/61] fix: skip malformed network datagrams instead of
 raising out of update()

---
 klang/network.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 28d6293..9a8281a 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -146,16 +146,22 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
+            try:
+                string = data.decode()
+            except UnicodeDecodeError as err:
+                self.logger.error(err, exc_info=True)
+                continue
+
             while string:
                 try:
                     obj, stop = self.decoder.raw_decode(string)
-                    yield obj
-                    string = string[stop:]
-                except json.JSONDecodeError as err:
+                except Exception as err:  # Object hook can raise anything
                     self.logger.error(err, exc_info=True)
                     break
 
+                yield obj
+                string = string[stop:]
+
     def send_object(self, obj):
         """Send object to address as JSON."""
         string = self.encoder.encode(obj)
-- 
2.43.0


From e051d3da5afd9edc8c490324c9ba342ad742c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 36/61] fix: accept whitespace around JSON objects in network
 datagrams

---
 klang/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 9a8281a..0b69969 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -147,7 +147,7 @@ class JsonCourier:
         for data in receive_all_from(self.sock):
             #print('Received:', data)
             try:
-                string = data.decode()
+                string = data.decode().lstrip()
             except UnicodeDecodeError as err:
                 self.logger.error(err, exc_info=True)
                 continue
@@ -160,7 +160,7 @@ class JsonCourier:
                     break
 
                 yield obj
-                string = string[stop:]
+                string = string[stop:].lstrip()
 
     def send_object(self, obj):
         """Send object to address as JSON."""
-- 
2.43.0


From ac50a3e1039da02b492cfa8d80843f46ba64f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 37/61] fix: keep receiving after an empty network datagram

---
 klang/network.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 0b69969..3aa28a8 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -52,16 +52,14 @@ def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
         bytes: Received data chunks.
     """
     try:
-        # This would be a use case for the Walrus Operator but we want support
-        # for <3.8
-        data = sock.recv(bufsize)
-        while data:
+        # An empty datagram is not the end of the stream.
+        while True:
+            data = sock.recv(bufsize)
             if len(data) == bufsize:
                 fmt = 'Full input buffer (%d bytes)! Overflow?'
                 LOGGER.warning(fmt, bufsize)
 
             yield data
-            data = sock.recv(bufsize)
     except BlockingIOError:
         return
 
-- 
2.43.0


From 48021bc06c541972892942b3c95a3efe76687739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 38/61] fix: receive whole datagrams, audio buffers do not fit
 into 1024 bytes

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index 3aa28a8..8c05634 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -11,7 +11,7 @@ from klang.connections import MessageOutput, MessageInput
 from klang.messages import Note
 
 
-NETWORK_BUFFER_SIZE = 1024
+NETWORK_BUFFER_SIZE = 65536
 """int: Network buffer size for receiving datagram messages."""
 
 LOGGER = logging.getLogger(__name__)
-- 
2.43.0


From 2a6a2dd535ce6c38bc9aa91ea1be698aa6fd0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 39/61] fix: Note.from_dict leaves the passed dictionary alone

---
 klang/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/messages.py b/klang/messages.py
index 196508d..7d5f3d5 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -37,11 +37,12 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
     @classmethod
     def from_dict(cls, dct):
         """Construct Note from dct."""
-        if dct.pop('type') != cls.__name__:
+        kwargs = dict(dct)
+        if kwargs.pop('type') != cls.__name__:
             fmt = 'Can not construct Note from dict %s'
             raise ValueError(fmt % dct)
 
-        return cls(**dct)
+        return cls(**kwargs)
 
     @classmethod
     def from_json(cls, string):
-- 
2.43.0


From b8ef6243cb32a418bab264e065bed08fd7d775ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 40/61] fix: writing a silent recording to a WAV file fails

---
 klang/audio/wavfile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index b5850ca..54c6fd9 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -58,8 +58,11 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     if audio.ndim == 1:
         audio = audio[:, np.newaxis]
 
-    # Scale to full Wertebereich of target bit depth.
-    samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
+    # Scale to full Wertebereich of target bit depth. Silence stays silence.
+    if audio.any():
+        audio = normalize_values(audio)
+
+    samples = (audio * np.iinfo(dtype).max).astype(dtype)
     m, n = samples.shape
     assert m > n
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 90d42138a77abcfa6aaa817052bf6d6b382bc859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 41/61] fix: note names with mixed accidentals or trailing
 characters are invalid

---
 klang/music/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/music/pitch.py b/klang/music/pitch.py
index 59080c3..d301bb1 100644
--- a/klang/music/pitch.py
+++ b/klang/music/pitch.py
@@ -20,7 +20,7 @@ PITCH_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
 CIRCLE_OF_FIFTHS = (7 * PITCH_CLASSES) % DODE
 """array: Pitches of the circle of fifths."""
 
-SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])([#b]{0,2})([-0123456789]+)')
+SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])(#{0,2}|b{0,2})(-?[0123456789]+)')
 """re.pattern: Regex pattern for scientific note name."""
 
 ACCIDENTAL_SHIFTS = {
@@ -46,7 +46,7 @@ def note_name_2_pitch(noteName: str) -> int:
         >>> note_name_2_pitch('G##4')
         69
     """
-    match = SCIENTIFIC_PITCH_NOTATION_RE.match(noteName.title())
+    match = SCIENTIFIC_PITCH_NOTATION_RE.fullmatch(noteName.title())
     if not match:
         raise ValueError('Can not parse note %r' % noteName)
 
-- 
2.43.0


From 18a8ab610cf851e01be604463c125ee429bbcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:10 +0000
Subject: [PATCH 42/61] fix: scale code of scales with repeated pitches

---
 klang/music/scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/scales.py b/klang/music/scales.py
index 100f3b1..1e4872f 100644
--- a/klang/music/scales.py
+++ b/klang/music/scales.py
@@ -60,7 +60,7 @@ assert np.all(
 def scale_2_code(scale: Sequence[int]) -> int:
     """Get binary scale code for scale."""
     pitches = scale_2_pitches(scale)
-    return MASK[pitches].sum()
+    return np.bitwise_or.reduce(MASK[pitches])
 
 
 def code_2_scale(code: int) -> np.ndarray:
-- 
2.43.0


From f883b72941462f313e4a4ddf7164ec5b93697f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 43/61] fix: tuplets can be copied and pickled

---
 klang/music/note_values.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/klang/music/note_values.py b/klang/music/note_values.py
index 00096af..d741726 100644
--- a/klang/music/note_values.py
+++ b/klang/music/note_values.py
@@ -173,6 +173,16 @@ class Tuplet(Fraction):
         self.notes = notes
         self.den = den
 
+    # Fraction would call type(self)(numerator, denominator)
+    def __reduce__(self):
+        return type(self), (self.num, self.notes, self.den)
+
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
     def __str__(self):
         name = self.NAMES.get(self.num, self.__class__.__name__)
         return '%s(%s:%s)' % (name, self.num, self.den)
-- 
2.43.0


From 46445c395902a008ca5d677169de0fff8210335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 44/61] fix: mixers share gain and panning lists with their
 caller

---
 klang/audio/mixer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..7043a1f 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -30,7 +30,7 @@ class Mixer(Block):
 
         assert len(gains) == nInputs
         super().__init__(nInputs=nInputs, nOutputs=1)
-        self.gains = gains
+        self.gains = list(gains)
 
     def add_new_channel(self, gain=DEFAULT_GAIN):
         """Add a new input channel to the mixer."""
@@ -85,7 +85,7 @@ class StereoMixer(Mixer):
         super().__init__(nInputs, gains=gains)
         self.mode = mode
         self.panLaw = panLaw
-        self.pannings = pannings
+        self.pannings = list(pannings)
 
     def add_new_channel(self, gain=DEFAULT_GAIN, panning=CENTER):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 4c023716fa036d63a80b2cceb1d2fe87605fefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:37 +0000
Subject: [PATCH 45/61] fix: keyboard state printable again (Thread.isAlive is
 gone)

---
 klang/keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..e35e7b0 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -59,7 +59,7 @@ class Keyboard(Block):
     def __str__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            'running' if self.keyWorker.isAlive() else 'not running'
+            'running' if self.keyWorker.is_alive() else 'not running'
         )
 
 
-- 
2.43.0


From 6a967646ec3af94e84661a7ad9de6fdf4826357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:42 +0000
Subject: [PATCH 46/61] fix: unknown keys do not end the keyboard

---
 klang/keyboard.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index e35e7b0..f942cde 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -28,6 +28,9 @@ class Keyboard(Block):
 
     def on_press(self, key):
         """On key press event handler with debouncing."""
+        if key is None:  # Key unknown to pynput
+            return
+
         key.pressed = True
         if self.keyState[key]:
             return
@@ -37,6 +40,9 @@ class Keyboard(Block):
 
     def on_release(self, key):
         """On key release event handler with debouncing."""
+        if key is None:  # Key unknown to pynput
+            return
+
         key.pressed = False
         if not self.keyState[key]:
             return
-- 
2.43.0


From 4357b24aaa3be962c735c00ea9bbc9b505365988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 47/61] fix: number keys switch between temperaments

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index f942cde..2845483 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -154,8 +154,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From 8f955b242ba59b40986f0d1ef4a3abd72606603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 48/61] fix: keyboard releases the notes it has played

---
 klang/keyboard.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 2845483..f2a0799 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -115,13 +115,25 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.playing = {}  # Character -> sounding note
 
     def play_note(self, char, noteOn=True):
-        """Play music note (note-on and note-off)."""
-        pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
-        frequency = self.temperament.pitch_2_frequency(pitch)
-        velocity = self.velocity if noteOn else self.SILENT
-        note = Note(pitch, velocity=velocity, frequency=frequency)
+        """Play music note (note-on and note-off). Octave and temperament could
+        have changed since note-on. Keys outside of the pitch range are mute.
+        """
+        if noteOn:
+            pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
+            if not 0 <= pitch < 128:
+                return
+
+            frequency = self.temperament.pitch_2_frequency(pitch)
+            note = Note(pitch, velocity=self.velocity, frequency=frequency)
+            self.playing[char] = note
+        elif char in self.playing:
+            note = self.playing.pop(char)._replace(velocity=self.SILENT)
+        else:
+            return
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From aab2e489d8634e61cde8e88bff425b5103fcde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 49/61] fix: MIDI output sends on its channel

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..788888f 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -53,7 +53,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From fb63687614474924dcb371e1e16468d9e99806e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 50/61] fix: quiet notes are not sent as MIDI note-offs

---
 klang/midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index 788888f..6903b8c 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -32,12 +32,13 @@ def open_midiout(portNumber):
 
 def note_to_midi_message(note, channel=0):
     """Convert klang note to midi message."""
+    velocity = int(note.velocity * 127)
     if note.on:
         statusByte = MIDI_NOTE_ON + channel
+        velocity = max(1, velocity)  # Zero would mean note-off
     else:
         statusByte = MIDI_NOTE_OFF + channel
 
-    velocity = int(note.velocity * 127)
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From 5d6e057ed16c464b9278e19e04d0c5a605fa03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 51/61] fix: time signatures of complex metres

---
 klang/music/note_formatting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index c27c0c2..bd641ec 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -271,6 +271,7 @@ def format_time_signature(grouping):
         metre = sum_grouping(grouping)
     except TypeError:
         metre = grouping
+        grouping = [metre]
 
     if is_complex(metre):
         grouping = expand(grouping)
-- 
2.43.0


From 2c8dde7c4a5be07980066dde92123f4d44a1cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 52/61] fix: chords over more than two octaves

---
 klang/scraping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/scraping.py b/klang/scraping.py
index 90205c3..6c8a2c0 100644
--- a/klang/scraping.py
+++ b/klang/scraping.py
@@ -115,8 +115,9 @@ def pitch_classes_2_chord(pitchClasses):
         pitch = base + int(pc)
         if pitch < prev:
             base += SEMITONES_PER_OCTAVE
+            pitch += SEMITONES_PER_OCTAVE
 
-        chord.append(base + pitch)
+        chord.append(pitch)
         prev = pitch
 
     return np.array(chord)
-- 
2.43.0


From 7071796842a377ab26374a6f33098dfa991edaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 53/61] fix: pitches of chords over more than two octaves

---
 klang/music/data/chords.csv | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/klang/music/data/chords.csv b/klang/music/data/chords.csv
index 955788f..2d03b06 100644
--- a/klang/music/data/chords.csv
+++ b/klang/music/data/chords.csv
@@ -1,52 +1,52 @@
 augmented chord,0,4,8
-augmented eleventh chord,0,4,7,10,14,30
+augmented eleventh chord,0,4,7,10,14,18
 augmented major seventh chord,0,4,8,11
 augmented seventh chord,0,4,8,10
-augmented sixth chord,0,6,100,16,30,124,40,55,58
+augmented sixth chord,0,6,10
 diminished chord,0,3,6
 diminished major seventh chord,0,3,6,11
 diminished seventh chord,0,3,6,9
 dominant,0,4,7
-dominant eleventh chord,0,4,7,10,14,29
+dominant eleventh chord,0,4,7,10,14,17
 dominant minor ninth,0,4,7,10,13
 dominant ninth,0,4,7,10,14
 dominant parallel,0,3,7
 dominant seventh chord,0,4,7,10
 dominant seventh flat five chord,0,4,6,10
 dominant seventh sharp nine,0,4,7,10,15
-dominant thirteenth chord,0,4,7,10,14,29,33
+dominant thirteenth chord,0,4,7,10,14,17,21
 dream chord,0,5,6,7
-elektra chord,0,7,9,13,28
-farben chord,0,8,11,16,33
+elektra chord,0,7,9,13,16
+farben chord,0,8,11,16,21
 half-diminished seventh chord,0,3,6,10
 harmonic seventh chord,0,4,7,10
 hendrix chord,0,4,7,10,15
 leading-tone triad,0,3,6
 lydian chord,0,4,7,11,18
-magic chord,0,1,5,6,10,12,27,29
+magic chord,0,1,5,6,10,12,15,17
 major chord,0,4,7
-major eleventh chord,0,4,7,11,14,29
+major eleventh chord,0,4,7,11,14,17
 major ninth chord,0,4,7,11,14
 major seventh chord,0,4,7,11
 major seventh sharp eleventh chord,0,4,8,11,18
 major sixth chord,0,4,7,9
 major sixth ninth chord,0,4,7,9,14
-major thirteenth chord,0,4,7,11,14,30,33
+major thirteenth chord,0,4,7,11,14,18,21
 mediant,0,3,7
 minor chord,0,3,7
-minor eleventh chord,0,3,7,10,14,29
+minor eleventh chord,0,3,7,10,14,17
 minor major seventh chord,0,3,7,11
 minor ninth chord,0,3,7,10,14
 minor seventh chord,0,3,7,10
 minor sixth chord,0,3,7,9
 minor sixth ninth chord,0,3,7,9,14
-minor thirteenth chord,0,3,7,10,14,29,33
+minor thirteenth chord,0,3,7,10,14,17,21
 mu chord,0,2,4,7
-mystic chord,0,6,10,16,33,38
+mystic chord,0,6,10,16,21,26
 neapolitan chord,1,5,8
 ninth augmented fifth chord,0,4,8,10,14
 ninth flat fifth chord,0,4,6,10,14
-northern lights chord,1,2,8,12,27,30,31,34,35,40,55
+northern lights chord,1,2,8,12,15,18,19,22,23,28,31
 ode-to-napoleon hexachord,0,1,4,5,8,9
 p5,0,7
 petrushka chord,0,1,4,6,7,10
@@ -57,7 +57,7 @@ secondary leading-tone chord,0,3,6
 secondary supertonic chord,0,3,7
 seven six chord,0,4,7,9,10
 seventh suspension four chord,0,5,7,10
-so what chord,0,5,10,15,31
+so what chord,0,5,10,15,19
 subdominant,0,4,7
 subdominant parallel,0,3,7
 submediant,0,3,7
-- 
2.43.0


From 9c79528bb3c1eb54424ac28b85c585a8281916a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 54/61] fix: printing oscillators with varying or note valued
 frequency

---
 klang/audio/oscillators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 26a720e..e858e7d 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -92,7 +92,11 @@ class Phasor(Block):
         self.output.set_value(self.sample())
 
     def __str__(self):
-        return '%s(%.1f Hz)' % (type(self).__name__, self.frequency.value)
+        freq = compute_rate(self.frequency.value)
+        if np.ndim(freq) > 0:
+            return '%s(varying frequency)' % type(self).__name__
+
+        return '%s(%.1f Hz)' % (type(self).__name__, freq)
 
     def __deepcopy__(self, memo):
         return type(self)(
-- 
2.43.0


From 35a91c4c314192c0c5d4ac4f75dd00e0ef5f209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 55/61] fix: Python envelope fallback hanging in loops without
 any samples

---
 klang/audio/envelope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 43f14cf..3e83baf 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -387,7 +387,14 @@ class Envelope:
             array: Envelope samples.
         """
         samples, self.value = next(self.sampleGenerator)
+        nLastCycle = None
         while generator_finished(samples):
+            if self.stage is Stage.RELEASING:
+                if samples.size == nLastCycle:  # Loop cycle without any samples
+                    samples = np.append(samples, self.value)
+
+                nLastCycle = samples.size
+
             self.go_to_next_stage(prepend=samples)
             samples, self.value = next(self.sampleGenerator)
 
-- 
2.43.0


From 28a8299613f7c569e32fc786d27b743974829685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 56/61] fix: delays shorter than an audio buffer

---
 klang/audio/effects.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 0ff9bb4..e91ca4c 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -171,9 +171,16 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek().copy()
-        self.ring.extend(new + self.feedback * old)
-        self.output.set_value(blend(new, old, self.drywet))
+        # At most one delay length at once. The ring holds not more than that.
+        length = self.ring.length
+        chunks = []
+        for start in range(0, new.size, length):
+            chunk = new[start:start+length]
+            old = self.ring.peek(chunk.size).copy()
+            self.ring.extend(chunk + self.feedback * old)
+            chunks.append(old)
+
+        self.output.set_value(blend(new, np.concatenate(chunks), self.drywet))
 
 
 class AudioSplitter(Block):
-- 
2.43.0


From 90747fa8d0d215bdd7fba8322b5c9613abf19734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 57/61] fix: blocks with relayed outputs can be mixed with the
 + operator

---
 klang/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/block.py b/klang/block.py
index 584ce70..3de1c7a 100644
--- a/klang/block.py
+++ b/klang/block.py
@@ -18,7 +18,7 @@ defined here (for operation overloading).
 """
 import functools
 
-from klang.connections import OutputBase, InputBase, Output, Input
+from klang.connections import OutputBase, InputBase, Output, Input, Relay
 
 
 def input_connections(block):
@@ -145,8 +145,8 @@ def mix_operator(left, right):
     """
     leftOutput = fetch_output(left)
     rightOutput = fetch_output(right)
-    if not isinstance(leftOutput, Output)\
-        or not isinstance(rightOutput, Output):
+    if not isinstance(leftOutput, (Output, Relay))\
+        or not isinstance(rightOutput, (Output, Relay)):
         raise TypeError('Can not mix %s with %s' % (left, right))
 
     from klang.audio.mixer import Mixer  # Circular import for comforts
-- 
2.43.0


From f98f2620b21442ce3efe4875bfd3d52e43a7d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 58/61] fix: execution order of very long chains of blocks

---
 klang/graph.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/klang/graph.py b/klang/graph.py
index 8a9a658..978e095 100644
--- a/klang/graph.py
+++ b/klang/graph.py
@@ -106,20 +106,28 @@ def find_back_edges(graph):
         src.remove(node)
         dst.add(node)
 
-    def dfs(parent):
-        """Depth first search graph traversal."""
-        move_node(parent, white, gray)
-        for child in get_successors(graph, parent):
-            if child in black:
-                continue
-
-            if child in gray:
-                backEdges.append((parent, child))
-                continue
-
-            dfs(child)
-
-        move_node(parent, gray, black)
+    def dfs(root):
+        """Depth first search graph traversal (with an explicit stack. The
+        recursion limit would bound the length of block chains).
+        """
+        move_node(root, white, gray)
+        stack = [(root, iter(get_successors(graph, root)))]
+        while stack:
+            parent, children = stack[-1]
+            for child in children:
+                if child in black:
+                    continue
+
+                if child in gray:
+                    backEdges.append((parent, child))
+                    continue
+
+                move_node(child, white, gray)
+                stack.append((child, iter(get_successors(graph, child))))
+                break
+            else:
+                move_node(parent, gray, black)
+                stack.pop()
 
     while white:
         node = next(iter(white))  # white.pop() would remove item from set!
-- 
2.43.0


From 0fb8afe3dfa48eec6fb0a2222f7a5b31ce264af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 59/61] fix: failing allocation of a delay line ends the
 process

---
 klang/audio/_filters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index ce9f240..f162602 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -49,7 +49,7 @@ RingBuffer* RingBuffer_create(size_t length)
     RingBuffer *self = (RingBuffer *) malloc(size);
     if (!self) {
         perror("malloc RingBuffer");
-        exit(EXIT_FAILURE);
+        return NULL;
     }
 
     self->length = length;
-- 
2.43.0


From 434b526c22b2cac4191a78108b271c0291a068b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 60/61] fix: run networks which consist of composites without
 internal execution order

---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From ccf79a6ef59a8efea3a6245989f802b73ea556fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 61/61] fix: refuse to trim a sample to nothing (stop index
 zero)

---
 klang/audio/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index f56d02e..dd18754 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -248,7 +248,7 @@ class Sample:
     def trim(self, start=0, stop=None):
         """Trim playback boundaries to [start, stop)."""
         start = int(start)
-        stop = int(stop or self.length)
+        stop = self.length if stop is None else int(stop)
         assert 0 <= start < stop <= self.length  # TODO(atheler): start <= stop?
         self.start = start
         self.stop = stop
-- 
2.43.0

