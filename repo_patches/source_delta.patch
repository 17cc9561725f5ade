From ea178e4b7c31f863c1518c23f87c12c5ac818e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 001/101] fix: read the MIDI event queue in one critical
 section

GetEventsInRange and GetAllEvents released the lock between sorting and
reading, so an event added in between was read from an unsorted queue.
---
 pkg/midi/queue.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..4b41065 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,11 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +76,11 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From 1e3de3e216cc4358f54e42a3344e221863f614ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 002/101] fix: give profiler snapshots their own sample buffer

GetMeasurement and GetAllMeasurements copied the struct but shared its
samples slice, so Percentile read it while record was writing it.
---
 pkg/framework/debug/profiler.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index c85f486..81d6d2b 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -116,8 +116,7 @@ func (p *Profiler) GetMeasurement(name string) (*Measurement, bool) {
 	}
 	
 	// Return a copy to avoid race conditions
-	copy := *m
-	return &copy, true
+	return m.snapshot(), true
 }
 
 // GetAllMeasurements returns all measurements.
@@ -127,8 +126,7 @@ func (p *Profiler) GetAllMeasurements() map[string]*Measurement {
 	
 	result := make(map[string]*Measurement)
 	for k, v := range p.measurements {
-		copy := *v
-		result[k] = &copy
+		result[k] = v.snapshot()
 	}
 	return result
 }
@@ -173,6 +171,13 @@ func (p *Profiler) Report() string {
 
 // Measurement methods
 
+// snapshot returns a copy that shares no memory with the live measurement.
+func (m *Measurement) snapshot() *Measurement {
+	c := *m
+	c.samples = append([]time.Duration(nil), m.samples...)
+	return &c
+}
+
 // Average returns the average time for this measurement.
 func (m *Measurement) Average() time.Duration {
 	if m.count == 0 {
-- 
2.43.0


From 9c97eb98673175afa63bd465520287dad29e6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 003/101] fix: serialise AutoRegistry.Reserve with registration

RegisterWithID reads and then stores the next ID under the registry lock;
Reserve advanced it without the lock, so a reservation made in between was
undone and its IDs were handed out again.
---
 pkg/framework/param/registry_auto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..7c4a5f5 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -123,6 +123,8 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0


From 198706e465a3aeb84610d70615907ebc8a2ce0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 004/101] fix: do not print from the audio thread in
 SetParameterAtOffset

A leftover debug fmt.Printf did I/O and allocated on every automation point.
---
 pkg/framework/process/context.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..a8efb2a 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,7 +2,6 @@
 package process
 
 import (
-	"fmt"
 	"sort"
 
 	"github.com/justyntemme/vst3go/pkg/framework/param"
@@ -218,10 +217,6 @@ func (c *Context) SetParameterAtOffset(paramID uint32, value float64, sampleOffs
 	if param := c.params.Get(paramID); param != nil {
 		// For backward compatibility, apply the change immediately
 		param.SetValue(value)
-
-		// Debug output for parameter changes
-		fmt.Printf("[PARAM_AUTOMATION] SetParameterAtOffset: id=%d, value=%.6f, offset=%d, plain=%.1f\n",
-			paramID, value, sampleOffset, param.GetPlainValue())
 	}
 }
 
-- 
2.43.0


From 1de162bccef37191609768e276c159cb0d303ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 005/101] fix: sort parameter changes stably and without
 allocating

sort.Slice is not stable, so two changes of one parameter at the same
offset could be applied in the wrong order; it also allocates on every block.
---
 pkg/framework/process/context.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index a8efb2a..dc75f36 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,8 +2,6 @@
 package process
 
 import (
-	"sort"
-
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
 )
@@ -239,13 +237,19 @@ func (c *Context) ResetParameterChanges() {
 	c.changeCount = 0
 }
 
-// SortParameterChanges sorts parameter changes by sample offset for processing
+// SortParameterChanges sorts parameter changes by sample offset for processing.
+// Changes at the same offset keep the order in which they were added.
 func (c *Context) SortParameterChanges() {
-	if c.changeCount > 1 {
-		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
-			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
-		})
+	// Insertion sort: stable, in place and free of allocations
+	changes := c.paramChanges[:c.changeCount]
+	for i := 1; i < len(changes); i++ {
+		change := changes[i]
+		j := i
+		for j > 0 && changes[j-1].SampleOffset > change.SampleOffset {
+			changes[j] = changes[j-1]
+			j--
+		}
+		changes[j] = change
 	}
 }
 
-- 
2.43.0


From d88417993699b1b34798948fd6a65d7c6308cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 006/101] fix: do not allocate per sample in the FDN reverb

---
 pkg/dsp/reverb/fdn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 28950dc..b520334 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -41,6 +41,10 @@ type FDN struct {
 	modDepth  float64
 	modRate   float64
 
+	// Scratch space for one sample, so that processing does not allocate
+	delayOutputs   []float32
+	feedbackInputs []float32
+
 	sampleRate float64
 }
 
@@ -89,6 +93,8 @@ func NewFDN(numDelays int, sampleRate float64) *FDN {
 		dampingFilters: make([]*DampingFilter, numDelays),
 		modLFOs:        make([]float64, numDelays),
 		modPhases:      make([]float64, numDelays),
+		delayOutputs:   make([]float32, numDelays),
+		feedbackInputs: make([]float32, numDelays),
 		decay:          0.5,
 		damping:        0.5,
 		diffusion:      0.5,
@@ -275,7 +281,7 @@ func (f *FDN) updateInternalParameters() {
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
 	// Read outputs from all delay lines
-	delayOutputs := make([]float32, f.numDelays)
+	delayOutputs := f.delayOutputs
 
 	for i := 0; i < f.numDelays; i++ {
 		// Calculate modulated read position
@@ -311,7 +317,7 @@ func (f *FDN) Process(input float32) float32 {
 	}
 
 	// Apply feedback matrix to create new inputs
-	feedbackInputs := make([]float32, f.numDelays)
+	feedbackInputs := f.feedbackInputs
 	decayScale := float32(0.4 + f.decay*0.58)
 
 	for i := 0; i < f.numDelays; i++ {
-- 
2.43.0


From 61e9e1922d6d72d976b62a456169b4577d984e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 007/101] fix: do not index before the start of an FDN delay
 line

ProcessStereo read index writeIndex-1 before checking for wrap-around and
panicked whenever a write index had just wrapped to 0.
---
 pkg/dsp/reverb/fdn.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index b520334..c2df505 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -381,15 +381,17 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	// Add some stereo width by phase inverting some of the signal
 	if f.numDelays >= 2 {
 		// Get two delay outputs for stereo decorrelation
-		delay1 := f.delayLines[0][f.writeIndices[0]-1]
-		if f.writeIndices[0]-1 < 0 {
-			delay1 = f.delayLines[0][len(f.delayLines[0])-1]
+		idx1 := f.writeIndices[0] - 1
+		if idx1 < 0 {
+			idx1 = len(f.delayLines[0]) - 1
 		}
+		delay1 := f.delayLines[0][idx1]
 
-		delay2 := f.delayLines[1][f.writeIndices[1]-1]
-		if f.writeIndices[1]-1 < 0 {
-			delay2 = f.delayLines[1][len(f.delayLines[1])-1]
+		idx2 := f.writeIndices[1] - 1
+		if idx2 < 0 {
+			idx2 = len(f.delayLines[1]) - 1
 		}
+		delay2 := f.delayLines[1][idx2]
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-- 
2.43.0


From a281e5576beff80a4dc374744329f8986df1ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 008/101] fix: reuse scratch buffers in ParallelChain.Process

It allocated one buffer per chain on every audio block.
---
 pkg/framework/dsp/chain.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pkg/framework/dsp/chain.go b/pkg/framework/dsp/chain.go
index 4fc898b..2ce6537 100644
--- a/pkg/framework/dsp/chain.go
+++ b/pkg/framework/dsp/chain.go
@@ -170,6 +170,8 @@ type ParallelChain struct {
 	gains  []float32
 	name   string
 	bypass bool
+
+	scratch []float32 // reused by Process, grows to twice the largest block
 }
 
 // NewParallelChain creates a new parallel chain.
@@ -194,25 +196,27 @@ func (p *ParallelChain) Process(buffer []float32) {
 		return
 	}
 	
-	// Create temporary buffers for each chain
-	tempBuffers := make([][]float32, len(p.chains))
-	for i := range tempBuffers {
-		tempBuffers[i] = make([]float32, len(buffer))
-		copy(tempBuffers[i], buffer)
+	// Scratch space for one chain's result and for the mix, kept between blocks
+	n := len(buffer)
+	if cap(p.scratch) < 2*n {
+		p.scratch = make([]float32, 2*n)
 	}
-	
-	// Process each chain
-	for i, chain := range p.chains {
-		chain.Process(tempBuffers[i])
+	temp := p.scratch[:n]
+	mix := p.scratch[n : 2*n]
+	for i := range mix {
+		mix[i] = 0
 	}
-	
-	// Mix results
-	for i := range buffer {
-		buffer[i] = 0
-		for j, temp := range tempBuffers {
-			buffer[i] += temp[i] * p.gains[j]
+
+	// Process each chain on its own copy of the input and mix the results
+	for j, chain := range p.chains {
+		copy(temp, buffer)
+		chain.Process(temp)
+		for i := range mix {
+			mix[i] += temp[i] * p.gains[j]
 		}
 	}
+
+	copy(buffer, mix)
 }
 
 // Reset resets all chains.
-- 
2.43.0


From 602a3abf7d0b1a5e8fd35ac8ef951154bd0c6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 009/101] fix: reuse scratch slices in Context.ProcessSamples

It allocated two slices on every audio block.
---
 pkg/framework/process/context.go |  3 +++
 pkg/framework/process/helpers.go | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index dc75f36..85adcad 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -112,6 +112,9 @@ type Context struct {
 	workBuffer []float32
 	tempBuffer []float32
 
+	// One value per channel in and out, used by ProcessSamples
+	sampleBuffer []float32
+
 	// Parameter access
 	params *param.Registry
 
diff --git a/pkg/framework/process/helpers.go b/pkg/framework/process/helpers.go
index fe4976f..cb80a53 100644
--- a/pkg/framework/process/helpers.go
+++ b/pkg/framework/process/helpers.go
@@ -43,9 +43,15 @@ func (ctx *Context) ProcessSamples(fn func(sample int, inputs, outputs []float32
 	
 	numSamples := ctx.NumSamples()
 	
-	// Temporary slices to avoid allocations
-	inputs := make([]float32, numChannels)
-	outputs := make([]float32, numChannels)
+	// Scratch slices, kept between blocks to avoid allocations
+	if cap(ctx.sampleBuffer) < 2*numChannels {
+		ctx.sampleBuffer = make([]float32, 2*numChannels)
+	}
+	inputs := ctx.sampleBuffer[:numChannels]
+	outputs := ctx.sampleBuffer[numChannels : 2*numChannels]
+	for ch := range outputs {
+		outputs[ch] = 0
+	}
 	
 	for s := 0; s < numSamples; s++ {
 		// Gather inputs
-- 
2.43.0


From fecadc3f4d50b9e7c21967f76339d6122899caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 010/101] fix: reuse the filter buffer in LUFSMeter.Process

It allocated a block-sized buffer on every call.
---
 pkg/dsp/analysis/meters.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index b8ccad2..067857b 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -203,6 +203,7 @@ type LUFSMeter struct {
 	preFilter    [][]*BiquadFilter // K-weighting pre-filter (per channel)
 	highShelf    [][]*BiquadFilter // K-weighting high shelf (per channel)
 	channelPower []float64
+	filtered     []float64 // K-weighted samples of the current block, reused
 	mu           sync.Mutex
 }
 
@@ -345,7 +346,10 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	defer lm.mu.Unlock()
 	
 	// Process samples through K-weighting filters
-	filtered := make([]float64, len(samples))
+	if cap(lm.filtered) < len(samples) {
+		lm.filtered = make([]float64, len(samples))
+	}
+	filtered := lm.filtered[:len(samples)]
 	for i := 0; i < len(samples); i += lm.channels {
 		for ch := 0; ch < lm.channels; ch++ {
 			if i+ch < len(samples) {
-- 
2.43.0


From 78c35a7f0d968d96d4d67fa6f113f95365caa0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 011/101] fix: keep the LFO random state per instance

Every LFO stepped one package-level generator, so instances disturbed each
other and raced when processed on different threads.
---
 pkg/dsp/modulation/lfo.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/dsp/modulation/lfo.go b/pkg/dsp/modulation/lfo.go
index c1845a1..8c6a519 100644
--- a/pkg/dsp/modulation/lfo.go
+++ b/pkg/dsp/modulation/lfo.go
@@ -43,6 +43,7 @@ type LFO struct {
 	currentRandom float64
 	randomCounter int
 	randomPeriod  int
+	randState     uint32
 }
 
 // NewLFO creates a new LFO
@@ -54,6 +55,7 @@ func NewLFO(sampleRate float64) *LFO {
 		depth:      1.0,
 		offset:     0.0,
 		phase:      0.0,
+		randState:  randSeed,
 	}
 
 	lfo.updatePhaseIncrement()
@@ -72,7 +74,7 @@ func (l *LFO) SetWaveform(waveform Waveform) {
 	if waveform == WaveformRandom {
 		l.updateRandomPeriod()
 		// Generate initial random value
-		l.currentRandom = 2.0*randFloat() - 1.0
+		l.currentRandom = 2.0*l.randFloat() - 1.0
 		l.randomCounter = 0
 	}
 }
@@ -148,7 +150,7 @@ func (l *LFO) generateWaveform() float64 {
 		if l.randomCounter >= l.randomPeriod {
 			l.randomCounter = 0
 			// Generate new random value between -1 and 1
-			l.currentRandom = 2.0*randFloat() - 1.0
+			l.currentRandom = 2.0*l.randFloat() - 1.0
 		}
 		l.randomCounter++
 		return l.currentRandom
@@ -193,13 +195,14 @@ func (l *LFO) Reset() {
 	l.phase = 0.0
 	l.randomCounter = 0
 	l.currentRandom = 0.0
+	l.randState = randSeed
 }
 
 // Simple random number generator (can be replaced with better RNG)
-var randState uint32 = 1
+const randSeed uint32 = 1
 
-func randFloat() float64 {
+func (l *LFO) randFloat() float64 {
 	// Simple linear congruential generator
-	randState = randState*1664525 + 1013904223
-	return float64(randState) / float64(1<<32)
+	l.randState = l.randState*1664525 + 1013904223
+	return float64(l.randState) / float64(1<<32)
 }
-- 
2.43.0


From 948d060c8db0d360bd304252d2f49cb32dd72953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 012/101] fix: draw bitcrusher dither from a per-instance
 uniform generator

Dither reinterpreted random bits as a float64, which gives NaN, Inf and huge
values, so dithered output was full scale or NaN; and all instances stepped
one package-level generator, so they disturbed each other and raced when
processed on different threads.
---
 pkg/dsp/distortion/bitcrusher.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..a1db7b6 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -33,6 +33,7 @@ type Bitcrusher struct {
 
 	// Dithering state
 	ditherState float64
+	randomState uint64
 }
 
 func NewBitcrusher(sampleRate float64) *Bitcrusher {
@@ -44,6 +45,7 @@ func NewBitcrusher(sampleRate float64) *Bitcrusher {
 		mix:                1.0,
 		output:             1.0,
 		originalSampleRate: sampleRate,
+		randomState:        randomSeed,
 	}
 }
 
@@ -166,16 +168,19 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 }
 
 func (b *Bitcrusher) generateDither() float64 {
+	// One quantization step, see applyBitReduction
+	lsb := 2.0 / math.Pow(2.0, b.bitDepth)
+
 	switch b.dither {
 	case DitherWhite:
-		// White noise dither
-		return (math.Float64frombits(randomBits()) - 0.5) * 2.0 / math.Pow(2.0, b.bitDepth)
+		// White noise dither, within one step either way
+		return (b.randomFloat() - 0.5) * 2.0 * lsb
 
 	case DitherTriangular:
-		// Triangular dither (sum of two uniform random values)
-		r1 := math.Float64frombits(randomBits()) - 0.5
-		r2 := math.Float64frombits(randomBits()) - 0.5
-		return (r1 + r2) / math.Pow(2.0, b.bitDepth)
+		// Triangular dither (sum of two uniform random values), within one step either way
+		r1 := b.randomFloat() - 0.5
+		r2 := b.randomFloat() - 0.5
+		return (r1 + r2) * lsb
 
 	default:
 		return 0.0
@@ -188,15 +193,21 @@ func (b *Bitcrusher) Reset() {
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
+	b.randomState = randomSeed
 }
 
 // Simple random number generator for dithering
-var randomState uint64 = 1
+const randomSeed uint64 = 88172645463325252
 
-func randomBits() uint64 {
+func (b *Bitcrusher) randomBits() uint64 {
 	// Simple linear congruential generator
-	randomState = randomState*6364136223846793005 + 1442695040888963407
-	return randomState
+	b.randomState = b.randomState*6364136223846793005 + 1442695040888963407
+	return b.randomState
+}
+
+// randomFloat returns a uniform value in [0, 1)
+func (b *Bitcrusher) randomFloat() float64 {
+	return float64(b.randomBits()>>11) / (1 << 53)
 }
 
 // Utility functions for specific bit-crushing effects
-- 
2.43.0


From 33b9e34a75651194b48992fdb4ee8e22c08a33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 013/101] fix: hold bitcrusher samples per channel

The left and right channels shared one sample-and-hold, so with rate
reduction each channel output samples of the other.
---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index a1db7b6..e3c4158 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,8 +25,8 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
@@ -86,7 +86,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -131,25 +131,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] == 0.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
 	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = 0.0
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -188,8 +188,8 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
-- 
2.43.0


From 717315a401607d8981b1ad1a4c4aaa49b6b91750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 014/101] fix: convert between MIDI notes and frequencies
 exactly

The cubic for log2 is off by up to 0.2 octaves, so FrequencyToNote returned a
note up to two semitones away from the one NoteToFrequency was given, and it
did not terminate for an infinite frequency; 2^x was off by up to ten cents.
---
 pkg/midi/events.go | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/pkg/midi/events.go b/pkg/midi/events.go
index 255ef3e..2f1ae2f 100644
--- a/pkg/midi/events.go
+++ b/pkg/midi/events.go
@@ -2,6 +2,7 @@ package midi
 
 import (
 	"fmt"
+	"math"
 )
 
 type EventType uint8
@@ -226,18 +227,7 @@ func NoteToFrequency(note uint8, tuningA4 float64) float64 {
 }
 
 func pow2(x float64) float64 {
-	// Fast approximation of 2^x
-	if x >= 0 {
-		whole := int(x)
-		frac := x - float64(whole)
-		// 2^whole * 2^frac
-		// Use Taylor series approximation for fractional part
-		fracPow := 1.0 + frac*(0.693147 + frac*(0.240227 + frac*0.055504))
-		return float64(uint64(1)<<uint(whole)) * fracPow
-	} else {
-		// For negative x, use 2^x = 1 / 2^(-x)
-		return 1.0 / pow2(-x)
-	}
+	return math.Exp2(x)
 }
 
 func FrequencyToNote(freq, tuningA4 float64) uint8 {
@@ -255,28 +245,10 @@ func FrequencyToNote(freq, tuningA4 float64) uint8 {
 }
 
 func log2(x float64) float64 {
-	// Fast approximation of log2(x)
 	if x <= 0 {
 		return -1000.0 // Return a very negative number for invalid input
 	}
-	
-	// Normalize x to [1, 2) range
-	exp := 0
-	for x >= 2.0 {
-		x /= 2.0
-		exp++
-	}
-	for x < 1.0 {
-		x *= 2.0
-		exp--
-	}
-	
-	// Now x is in [1, 2), use polynomial approximation
-	// log2(x) ≈ (x-1) * (1.4427 - 0.7213*(x-1) + 0.4821*(x-1)^2)
-	t := x - 1.0
-	frac := t * (1.4427 - t*(0.7213 - t*0.4821))
-	
-	return float64(exp) + frac
+	return math.Log2(x)
 }
 
 func NoteNumberToName(note uint8) string {
-- 
2.43.0


From 75741cf041346b80234d15dd00e246d0fb7d5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 015/101] fix: make foldback distortion terminate for every
 input

Folding one threshold at a time never ended for samples too large for the
step to change them, for Inf, and for a threshold of zero or less.
---
 pkg/dsp/distortion/bitcrusher.go | 21 ++++++++++++++-------
 pkg/dsp/distortion/waveshaper.go | 10 +---------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index e3c4158..b3fa49b 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -227,14 +227,21 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
+	if threshold <= 0 {
+		return 0.0
 	}
-	return x
+	if math.Abs(x) <= threshold {
+		return x
+	}
+	// Folding at both thresholds is a triangle wave of period 4*threshold
+	x = math.Mod(x+threshold, 4*threshold)
+	if x < 0 {
+		x += 4 * threshold
+	}
+	if x > 2*threshold {
+		x = 4*threshold - x
+	}
+	return x - threshold
 }
 
 func GateEffect(x, threshold float64) float64 {
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..c9cfe38 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,15 +114,7 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return FoldbackDistortion(x, 1.0)
 }
 
 func (w *Waveshaper) asymmetric(x float64) float64 {
-- 
2.43.0


From d7e5374462f0cec0ce1f2884363899bbc2584b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 016/101] fix: give a LUFSMeter at least one channel

With none, Process advanced by zero samples and never returned.
---
 pkg/dsp/analysis/meters.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 067857b..0caad1b 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -235,6 +235,9 @@ type BiquadFilter struct {
 
 // NewLUFSMeter creates a new LUFS meter
 func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
+	if channels < 1 {
+		channels = 1
+	}
 	lm := &LUFSMeter{
 		sampleRate:   sampleRate,
 		channels:     channels,
-- 
2.43.0


From d330678bb1af3341b641e16a69154aa584e15012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 017/101] fix: restore the best-case peak hold in
 CorrelationMeter.Reset

---
 pkg/dsp/analysis/correlation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/correlation.go b/pkg/dsp/analysis/correlation.go
index 2755f56..bda229d 100644
--- a/pkg/dsp/analysis/correlation.go
+++ b/pkg/dsp/analysis/correlation.go
@@ -225,7 +225,7 @@ func (cm *CorrelationMeter) Reset() {
 	cm.writePos = 0
 	cm.count = 0
 	cm.correlation = 0
-	cm.peakHold = 0
+	cm.peakHold = 1.0
 	cm.peakHoldCount = 0
 }
 
-- 
2.43.0


From e7b94dec305a2c9fdbda674220e66e325290c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 018/101] fix: keep the voices of a chorus apart after Reset

---
 pkg/dsp/modulation/chorus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index f6d7b64..2057211 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -236,8 +236,10 @@ func (c *Chorus) Reset() {
 	}
 
 	// Reset LFOs
-	for _, lfo := range c.lfos {
+	for i, lfo := range c.lfos {
 		lfo.Reset()
+		// Restore the phase offset of each voice
+		lfo.SetPhase(float64(i) / float64(c.voices))
 	}
 
 	c.delayIndex = 0
-- 
2.43.0


From c823a3467bb0261dd8d785fd542dbd5aa5793759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 019/101] fix: return a ring modulator to its carrier frequency
 when the LFO stops

---
 pkg/dsp/modulation/ringmod.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dsp/modulation/ringmod.go b/pkg/dsp/modulation/ringmod.go
index 493a34e..b3b6c78 100644
--- a/pkg/dsp/modulation/ringmod.go
+++ b/pkg/dsp/modulation/ringmod.go
@@ -65,6 +65,7 @@ func (rm *RingModulator) SetWaveform(waveform Waveform) {
 // EnableLFO enables/disables LFO modulation of carrier frequency
 func (rm *RingModulator) EnableLFO(enabled bool) {
 	rm.lfoEnabled = enabled
+	rm.updatePhaseIncrement()
 }
 
 // SetLFORate sets the LFO modulation rate in Hz
@@ -192,5 +193,6 @@ func (rm *RingModulator) ProcessStereoBuffer(inputL, inputR, outputL, outputR []
 // Reset resets the ring modulator state
 func (rm *RingModulator) Reset() {
 	rm.phase = 0.0
+	rm.updatePhaseIncrement()
 	rm.lfo.Reset()
 }
-- 
2.43.0


From a37d8b7f8b57d15c7216d77434504ea8a0bd8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 020/101] fix: restart round-robin allocation in voice
 Allocator.Reset

---
 pkg/framework/voice/allocator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..6ee8e27 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -196,6 +196,7 @@ func (a *Allocator) Reset() {
 	a.sustainedNotes = make(map[uint8]bool)
 	a.sustainPedal = false
 	a.activeVoices = 0
+	a.lastTriggered = 0
 	a.currentNote = 0
 	a.previousNote = 0
 	a.glideActive = false
-- 
2.43.0


From d28e50a168ffec6038140c5d0a625df1264d628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 021/101] fix: draw tape flutter and hiss from a per-instance
 generator

---
 pkg/dsp/distortion/tape.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 53056fb..c8cb9ee 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -2,7 +2,6 @@ package distortion
 
 import (
 	"math"
-	"math/rand"
 )
 
 type TapeSaturation struct {
@@ -35,8 +34,14 @@ type TapeSaturation struct {
 
 	// Noise generator for tape hiss
 	noiseLevel float64
+	randState  uint32
 }
 
+const (
+	tapeFlutterRate        = 0.4 // Hz, drifts between 0.3 and 0.5
+	tapeRandSeed    uint32 = 1
+)
+
 func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 	bufferSize := int(sampleRate * 0.01) // 10ms max delay for flutter
 
@@ -50,8 +55,9 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		sampleRate:      sampleRate,
 		delayBuffer:     make([]float64, bufferSize),
 		delayBufferSize: bufferSize,
-		flutterRate:     0.3 + rand.Float64()*0.2, // 0.3-0.5 Hz
+		flutterRate:     tapeFlutterRate,
 		noiseLevel:      0.0001,
+		randState:       tapeRandSeed,
 	}
 }
 
@@ -97,7 +103,7 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	fluttered := t.applyFlutter(saturated)
 
 	// Add subtle tape noise
-	withNoise := fluttered + (rand.Float64()*2.0-1.0)*t.noiseLevel*t.saturation
+	withNoise := fluttered + (t.randFloat()*2.0-1.0)*t.noiseLevel*t.saturation
 
 	// De-emphasis (cut highs after saturation)
 	deEmphasized := t.deEmphasis(withNoise, channel)
@@ -183,8 +189,8 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 	if t.flutterPhase > 2.0*math.Pi {
 		t.flutterPhase -= 2.0 * math.Pi
 		// Occasionally change flutter rate slightly
-		if rand.Float64() < 0.1 {
-			t.flutterRate = 0.3 + rand.Float64()*0.2
+		if t.randFloat() < 0.1 {
+			t.flutterRate = 0.3 + t.randFloat()*0.2
 		}
 	}
 
@@ -193,7 +199,7 @@ func (t *TapeSaturation) applyFlutter(x float64) float64 {
 	modulation := math.Sin(t.flutterPhase) * modDepth
 
 	// Add some randomness for more realistic flutter
-	modulation += (rand.Float64()*2.0 - 1.0) * modDepth * 0.3
+	modulation += (t.randFloat()*2.0 - 1.0) * modDepth * 0.3
 
 	// Calculate delayed position
 	delaySamples := 5.0 + modulation // Base delay + modulation
@@ -243,6 +249,8 @@ func (t *TapeSaturation) Reset() {
 	t.deEmphasisState[1] = 0.0
 	t.envelope = 0.0
 	t.flutterPhase = 0.0
+	t.flutterRate = tapeFlutterRate
+	t.randState = tapeRandSeed
 	t.delayWritePos = 0
 
 	// Clear delay buffer
@@ -250,3 +258,9 @@ func (t *TapeSaturation) Reset() {
 		t.delayBuffer[i] = 0.0
 	}
 }
+
+// randFloat draws from a per-instance linear congruential generator.
+func (t *TapeSaturation) randFloat() float64 {
+	t.randState = t.randState*1664525 + 1013904223
+	return float64(t.randState) / float64(1<<32)
+}
-- 
2.43.0


From 2423e18c237a0c45611795c4bd5066878a808cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 022/101] fix: build the same feedback matrix for every FDN of
 a size

---
 pkg/dsp/reverb/fdn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index c2df505..1b44b19 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -184,11 +184,12 @@ func (f *FDN) createHadamardMatrix() {
 func (f *FDN) createHouseholderMatrix() {
 	n := f.numDelays
 
-	// Create a random unit vector
+	// Create a random unit vector, the same for every instance
+	rng := rand.New(rand.NewSource(1))
 	v := make([]float64, n)
 	sum := 0.0
 	for i := 0; i < n; i++ {
-		v[i] = rand.Float64() - 0.5
+		v[i] = rng.Float64() - 0.5
 		sum += v[i] * v[i]
 	}
 
-- 
2.43.0


From 232bd3907abf0344d49549bd2460ad5f04797216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 023/101] fix: make NoiseGenerator.SetSeed fix the pink, brown
 and blue noise state

---
 pkg/dsp/utility/noise.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 677d9d2..b2a3a59 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -66,6 +66,7 @@ func (n *NoiseGenerator) SetType(noiseType NoiseType) {
 // SetSeed sets the random seed for reproducible noise.
 func (n *NoiseGenerator) SetSeed(seed int64) {
 	n.rand = rand.New(rand.NewSource(seed))
+	n.Reset()
 }
 
 // Next generates the next noise sample.
-- 
2.43.0


From 362385ce944065c695f15f800f2ee78c0659e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 024/101] fix: make Phaser.SetDepth take effect and keep the
 frequency range in SetStages

---
 pkg/dsp/modulation/phaser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/phaser.go b/pkg/dsp/modulation/phaser.go
index a51780a..4d6b451 100644
--- a/pkg/dsp/modulation/phaser.go
+++ b/pkg/dsp/modulation/phaser.go
@@ -91,6 +91,7 @@ func NewPhaser(sampleRate float64) *Phaser {
 
 	// Initialize filters
 	p.updateStages()
+	p.updateFrequencyRange()
 
 	return p
 }
@@ -104,6 +105,7 @@ func (p *Phaser) SetRate(hz float64) {
 // SetDepth sets the modulation depth (0-1)
 func (p *Phaser) SetDepth(depth float64) {
 	p.depth = math.Max(0.0, math.Min(1.0, depth))
+	p.updateFrequencyRange()
 }
 
 // SetCenterFrequency sets the center frequency for modulation
@@ -150,7 +152,6 @@ func (p *Phaser) updateStages() {
 	for i := 0; i < p.stages; i++ {
 		p.filters[i] = NewAllPassFilter()
 	}
-	p.updateFrequencyRange()
 }
 
 // updateFrequencyRange updates the frequency range based on center and depth
-- 
2.43.0


From af2deefc9c5d288699d4d67a9a95209814666510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 025/101] fix: size chorus and flanger delay lines for every
 allowed delay and depth

---
 pkg/dsp/modulation/chorus.go  | 4 ++--
 pkg/dsp/modulation/flanger.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/modulation/chorus.go b/pkg/dsp/modulation/chorus.go
index 2057211..4434b79 100644
--- a/pkg/dsp/modulation/chorus.go
+++ b/pkg/dsp/modulation/chorus.go
@@ -106,8 +106,8 @@ func (c *Chorus) SetVoices(voices int) {
 
 // updateDelayLines updates the delay line buffers
 func (c *Chorus) updateDelayLines() {
-	// Calculate maximum delay needed (base + modulation depth)
-	maxDelayMs := c.delay + c.depth
+	// Calculate maximum delay needed for any allowed base delay (50ms) and depth (10ms)
+	const maxDelayMs = 50.0 + 10.0
 	c.maxDelaySamples = int(maxDelayMs * c.sampleRate / 1000.0)
 
 	// Add some headroom
diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 94040ad..1a5ba6a 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -94,8 +94,8 @@ func (f *Flanger) SetManualMode(enabled bool) {
 
 // updateDelayLine updates the delay line buffer size
 func (f *Flanger) updateDelayLine() {
-	// Calculate maximum delay needed
-	maxDelayMs := f.delay + f.depth
+	// Calculate maximum delay needed for any allowed delay and depth (10ms each)
+	const maxDelayMs = 10.0 + 10.0
 	f.maxDelaySamples = int(maxDelayMs * f.sampleRate / 1000.0)
 
 	// Add some headroom
-- 
2.43.0


From d30b9416a59a0ac03096df5c22b8544acff3c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 026/101] fix: mix.Sum and SumWeighted stop at the shorter of
 source and destination

The length check was the wrong way round: a source shorter than the
destination was read past its end, and a longer one written past the end of
the destination.
---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From bfede811c05bad5ceaa1b77b85134cda0c95d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 027/101] fix: interpolation.AllPass filters its input

The difference equation lacked the coefficient on the input, which made the
output equal to the input for every fraction.
---
 pkg/dsp/interpolation/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/interpolation/interpolation.go b/pkg/dsp/interpolation/interpolation.go
index f998baf..cbb97f4 100644
--- a/pkg/dsp/interpolation/interpolation.go
+++ b/pkg/dsp/interpolation/interpolation.go
@@ -117,7 +117,7 @@ func (ap *AllPass) Process(input, frac float32) float32 {
 	a := (1 - frac) / (1 + frac)
 	
 	// All-pass filter
-	output := input + a*ap.x1 - a*ap.y1
+	output := a*input + ap.x1 - a*ap.y1
 	
 	// Update state
 	ap.x1 = input
-- 
2.43.0


From 56e2292fe7013f0396b494b3ad85e1d202781ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 028/101] fix: dsp.SoftClip saturates negative peaks outwards

The negative side used the wrong sign, so a sample below the negative
threshold came out inside it (-1 at threshold 0.5 gave -0.27, where +1
gives 0.73).
---
 pkg/dsp/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/buffer.go b/pkg/dsp/buffer.go
index b46bd6e..6039b72 100644
--- a/pkg/dsp/buffer.go
+++ b/pkg/dsp/buffer.go
@@ -106,7 +106,7 @@ func SoftClip(buffer []float32, threshold float32) {
 		if sample > threshold {
 			buffer[i] = threshold + (1.0-threshold)*float32(math.Tanh(float64(sample-threshold)))
 		} else if sample < -threshold {
-			buffer[i] = -threshold + (-1.0+threshold)*float32(math.Tanh(float64(sample+threshold)))
+			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))
 		}
 	}
 }
-- 
2.43.0


From f08c6c5071da0f90829e7eccdcf4eb6ed1cf56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 029/101] fix: parameters do not take NaN as a value

SetValue, SetPlainValue and Normalize let NaN through their clamp, and
ParseValue accepts the text "NaN", so a host could put NaN into the
processing through any parameter.
---
 pkg/framework/param/parameter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..147fe2e 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -48,8 +48,8 @@ func (p *Parameter) GetValue() float64 {
 
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
-	// Clamp to 0-1
-	if value < 0 {
+	// Clamp to 0-1 (NaN becomes 0)
+	if !(value >= 0) {
 		value = 0
 	} else if value > 1 {
 		value = 1
@@ -120,7 +120,7 @@ func (p *Parameter) Normalize(plain float64) float64 {
 		return 0
 	}
 	normalized := (plain - p.Min) / (p.Max - p.Min)
-	if normalized < 0 {
+	if !(normalized >= 0) { // NaN becomes 0
 		return 0
 	}
 	if normalized > 1 {
-- 
2.43.0


From 361b2c8eb42bb6159595c47d1251c316fde2273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 030/101] fix: a builder default outside the range is kept to
 0..1

Default stored the unclamped quotient, which is reported to the host as the
normalized default value.
---
 pkg/framework/param/builder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 46f16e0..2bae6ae 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -37,8 +37,7 @@ func (b *Builder) Range(minVal, maxVal float64) *Builder {
 func (b *Builder) Default(value float64) *Builder {
 	// Convert to normalized
 	if b.param.Max > b.param.Min {
-		normalized := (value - b.param.Min) / (b.param.Max - b.param.Min)
-		b.param.DefaultValue = normalized
+		b.param.DefaultValue = b.param.Normalize(value)
 	}
 	return b
 }
-- 
2.43.0


From f44d40896c252a6b79d6faeb7ce0feb318363905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 031/101] fix: a rejected RegisterWithID leaves the parameter's
 id alone

---
 pkg/framework/param/registry_auto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 7c4a5f5..e80fc39 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -67,14 +67,14 @@ func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	
-	// Force the ID
-	param.ID = id
-	
 	// Check for conflicts
 	if existing, exists := r.params[id]; exists {
 		return fmt.Errorf("parameter ID %d already used by '%s'", id, existing.Name)
 	}
 	
+	// Force the ID
+	param.ID = id
+	
 	// Update next ID if necessary
 	if id >= r.nextID.Load() {
 		r.nextID.Store(id + 1)
-- 
2.43.0


From 215b799519967ca8362978ceffe9f6a5b6c2ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 032/101] fix: automatic ids do not run into explicitly
 registered ones

---
 pkg/framework/param/registry_auto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index e80fc39..bf73fb0 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -53,6 +53,11 @@ func (r *AutoRegistry) Register(params ...*Parameter) error {
 			return fmt.Errorf("parameter ID %d already exists", p.ID)
 		}
 		
+		// Keep automatic IDs clear of explicit ones
+		if p.ID >= r.nextID.Load() {
+			r.nextID.Store(p.ID + 1)
+		}
+		
 		// Register the parameter
 		r.params[p.ID] = p
 		r.order = append(r.order, p.ID)
-- 
2.43.0


From 16db7f3a8ecb3a4f11bb60f58b43a8f3e309c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 033/101] fix: start smoothing from the current value when it
 is switched on again

---
 pkg/framework/param/smoother.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..abeee95 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -198,10 +198,11 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
-	sp.enabled = enabled
-	if !enabled {
+	// Values set while smoothing is off never reach the smoother
+	if !enabled || !sp.enabled {
 		sp.smoother.Reset(sp.GetPlainValue())
 	}
+	sp.enabled = enabled
 }
 
 // SetSmoothingRate updates the smoothing rate.
-- 
2.43.0


From cf452c19c2226c5a8f866db86ad371f155304229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 034/101] fix: SetPlainValue on a smoothed parameter updates
 the smoother target

---
 pkg/framework/param/smoother.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index abeee95..8bf8bb5 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -188,6 +188,14 @@ func (sp *SmoothedParameter) SetValue(value float64) {
 	}
 }
 
+// SetPlainValue sets the plain parameter value and updates the smoother target.
+func (sp *SmoothedParameter) SetPlainValue(value float64) {
+	sp.Parameter.SetPlainValue(value)
+	if sp.enabled {
+		sp.smoother.SetTarget(sp.GetPlainValue())
+	}
+}
+
 // GetSmoothedValue returns the current smoothed value.
 func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 	if sp.enabled {
-- 
2.43.0


From 9e9f20f690d6858827fcaaea4b03f4a55f21069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 035/101] fix: a smoother without a ramp time reaches its
 target

---
 pkg/framework/param/smoother.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index 8bf8bb5..b422d5b 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -57,8 +57,9 @@ func (s *Smoother) SetTarget(target float64) {
 	switch s.smoothingType {
 	case LinearSmoothing:
 		// Calculate step size for linear smoothing
+		s.step = target - s.current
 		if s.rate > 0 {
-			s.step = (target - s.current) / s.rate
+			s.step /= s.rate
 		}
 		
 	case LogarithmicSmoothing:
@@ -77,8 +78,9 @@ func (s *Smoother) SetTarget(target float64) {
 		s.logCurrent = math.Log(currentVal)
 		s.logTarget = math.Log(targetVal)
 		
+		s.logStep = s.logTarget - s.logCurrent
 		if s.rate > 0 {
-			s.logStep = (s.logTarget - s.logCurrent) / s.rate
+			s.logStep /= s.rate
 		}
 	}
 }
-- 
2.43.0


From d1ff7b716ca78bc15f8ddc12411039d092832ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 036/101] fix: a smoother whose target is its current value
 stops smoothing

---
 pkg/framework/param/smoother.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index b422d5b..5e9f427 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -107,7 +107,7 @@ func (s *Smoother) Next() float64 {
 		s.current += s.step
 		
 		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		if (s.step >= 0 && s.current >= s.target) || (s.step <= 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
@@ -117,7 +117,7 @@ func (s *Smoother) Next() float64 {
 		s.logCurrent += s.logStep
 		
 		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		if (s.logStep >= 0 && s.logCurrent >= s.logTarget) || (s.logStep <= 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 2babd2ec2ee2d3fefdabe5da9ba9bd10311ab9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 037/101] fix: GetBarsBeats without a usable time signature
 divided by zero

---
 pkg/framework/process/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 85adcad..85c5ff4 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -50,7 +50,7 @@ type TransportInfo struct {
 
 // GetBarsBeats returns the current position in bars and beats
 func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
-	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigDenominator == 0 {
+	if !t.HasMusicalTime || !t.HasTimeSignature || t.TimeSigNumerator <= 0 || t.TimeSigDenominator <= 0 {
 		return 0, 0
 	}
 
-- 
2.43.0


From e97ab2d4d22acae84b208c25a6bfd0fe9228c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 038/101] fix: bars and beats before the start of the project
 were negative fractions

---
 pkg/framework/process/context.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 85c5ff4..bb0c482 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -2,6 +2,8 @@
 package process
 
 import (
+	"math"
+
 	"github.com/justyntemme/vst3go/pkg/framework/param"
 	"github.com/justyntemme/vst3go/pkg/midi"
 )
@@ -59,7 +61,8 @@ func (t *TransportInfo) GetBarsBeats() (bars int, beats float64) {
 	quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 	totalBeats := t.ProjectTimeMusic / quarterNotesPerBeat
 
-	bars = int(totalBeats / beatsPerBar)
+	// Before the start of the project bars count down from -1
+	bars = int(math.Floor(totalBeats / beatsPerBar))
 	beats = totalBeats - float64(bars)*beatsPerBar
 
 	return bars, beats
@@ -89,11 +92,11 @@ func (t *TransportInfo) GetBeatPosition() float64 {
 	if t.HasTimeSignature && t.TimeSigDenominator > 0 {
 		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
 		beatPosition := (positionInBar / quarterNotesPerBeat)
-		return beatPosition - float64(int(beatPosition)) // Get fractional part
+		return beatPosition - math.Floor(beatPosition) // Get fractional part
 	}
 
 	// Default to quarter note = beat
-	return positionInBar - float64(int(positionInBar))
+	return positionInBar - math.Floor(positionInBar)
 }
 
 // IsOnBeat returns true if the current position is at the start of a beat
-- 
2.43.0


From 5ef95e975513088d8b3a416713d13904fd6dbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 039/101] fix: a voice that ended by itself stayed bound to its
 old note and was released or retriggered by it

---
 pkg/framework/voice/allocator.go | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 6ee8e27..7604c79 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -64,6 +64,7 @@ type Allocator struct {
 	maxVoices     int
 	activeVoices  int
 	noteToVoice   map[uint8][]int // Maps note number to voice indices
+	voiceNotes    []uint8         // The note each voice was last given
 	lastTriggered int              // For round-robin allocation
 	sustainPedal  bool
 	sustainedNotes map[uint8]bool
@@ -87,6 +88,7 @@ func NewAllocator(voices []Voice) *Allocator {
 		stealingMode:   StealOldest,
 		maxVoices:      len(voices),
 		noteToVoice:    make(map[uint8][]int),
+		voiceNotes:     make([]uint8, len(voices)),
 		sustainedNotes: make(map[uint8]bool),
 	}
 }
@@ -193,6 +195,7 @@ func (a *Allocator) Reset() {
 		voice.Stop()
 	}
 	a.noteToVoice = make(map[uint8][]int)
+	a.voiceNotes = make([]uint8, len(a.voices))
 	a.sustainedNotes = make(map[uint8]bool)
 	a.sustainPedal = false
 	a.activeVoices = 0
@@ -235,8 +238,10 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 		}
 	}
 
-	// Allocate the voice
+	// Allocate the voice; it no longer belongs to the note it played before
+	a.forgetVoice(voiceIdx)
 	a.voices[voiceIdx].TriggerNote(note, velocity)
+	a.voiceNotes[voiceIdx] = note
 	a.noteToVoice[note] = []int{voiceIdx}
 }
 
@@ -371,22 +376,25 @@ func (a *Allocator) stealVoice() int {
 	}
 
 	if bestIdx != -1 {
-		// Remove the stolen voice from noteToVoice map
-		stolenNote := a.voices[bestIdx].GetNote()
-		if voices, exists := a.noteToVoice[stolenNote]; exists {
-			for i, idx := range voices {
-				if idx == bestIdx {
-					// Remove this index from the slice
-					a.noteToVoice[stolenNote] = append(voices[:i], voices[i+1:]...)
-					if len(a.noteToVoice[stolenNote]) == 0 {
-						delete(a.noteToVoice, stolenNote)
-					}
-					break
-				}
-			}
-		}
+		a.forgetVoice(bestIdx)
 		a.voices[bestIdx].Stop()
 	}
 
 	return bestIdx
+}
+
+// forgetVoice removes a voice from the note it was last given, so that
+// releasing or repeating that note no longer reaches it
+func (a *Allocator) forgetVoice(voiceIdx int) {
+	note := a.voiceNotes[voiceIdx]
+	voices := a.noteToVoice[note]
+	for i, idx := range voices {
+		if idx == voiceIdx {
+			a.noteToVoice[note] = append(voices[:i], voices[i+1:]...)
+			if len(a.noteToVoice[note]) == 0 {
+				delete(a.noteToVoice, note)
+			}
+			break
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 0a34185874c589606e16dcd1a19972e3ebdeb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 040/101] fix: lifting the sustain pedal released notes that
 were struck again and still held

---
 pkg/framework/voice/allocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 7604c79..abc9dc2 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -147,6 +147,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// A key that is down again is held by the key, not by the pedal
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From f8971abc335956ad057f383e5c5ed273a079810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 041/101] fix: note number 0 was taken for no note in mono,
 legato and unison mode

---
 pkg/framework/voice/allocator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index abc9dc2..95c6dfc 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -75,6 +75,7 @@ type Allocator struct {
 	
 	// Mono/Legato mode state
 	currentNote  uint8
+	noteHeld     bool // currentNote is sounding and not released
 	previousNote uint8
 	glideTime    float64
 	glideActive  bool
@@ -204,6 +205,7 @@ func (a *Allocator) Reset() {
 	a.activeVoices = 0
 	a.lastTriggered = 0
 	a.currentNote = 0
+	a.noteHeld = false
 	a.previousNote = 0
 	a.glideActive = false
 }
@@ -269,13 +271,14 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 	
 	a.previousNote = a.currentNote
 	a.currentNote = note
+	a.noteHeld = true
 	a.voices[0].TriggerNote(note, velocity)
 	a.noteToVoice = map[uint8][]int{note: {0}}
 }
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
+	if !a.noteHeld {
 		// First note, trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
@@ -290,10 +293,11 @@ func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
 
 // noteOffMono handles mono/legato mode note off
 func (a *Allocator) noteOffMono(note uint8, velocity uint8) {
-	if note == a.currentNote {
+	if a.noteHeld && note == a.currentNote {
 		a.voices[0].ReleaseNote()
 		delete(a.noteToVoice, note)
 		a.currentNote = 0
+		a.noteHeld = false
 		a.glideActive = false
 	}
 }
@@ -309,16 +313,18 @@ func (a *Allocator) noteOnUnison(note uint8, velocity uint8) {
 		a.noteToVoice[note][i] = i
 	}
 	a.currentNote = note
+	a.noteHeld = true
 }
 
 // noteOffUnison handles unison mode note off
 func (a *Allocator) noteOffUnison(note uint8, velocity uint8) {
-	if note == a.currentNote {
+	if a.noteHeld && note == a.currentNote {
 		for i := 0; i < a.maxVoices; i++ {
 			a.voices[i].ReleaseNote()
 		}
 		delete(a.noteToVoice, note)
 		a.currentNote = 0
+		a.noteHeld = false
 	}
 }
 
-- 
2.43.0


From bfad771cb60df5c68b3bb373972dfced2a4ce25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 042/101] fix: lowering the number of voices left the voices
 beyond it sounding

---
 pkg/framework/voice/allocator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 95c6dfc..cd7c2ab 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -114,6 +114,11 @@ func (a *Allocator) SetMaxVoices(max int) {
 	if max < 1 {
 		max = 1
 	}
+	// Voices beyond the new maximum end now: nothing would release them later
+	for i := max; i < a.maxVoices; i++ {
+		a.forgetVoice(i)
+		a.voices[i].Stop()
+	}
 	a.maxVoices = max
 }
 
@@ -307,6 +312,7 @@ func (a *Allocator) noteOnUnison(note uint8, velocity uint8) {
 	// Trigger all available voices with the same note
 	for i := 0; i < a.maxVoices; i++ {
 		a.voices[i].TriggerNote(note, velocity)
+		a.voiceNotes[i] = note
 	}
 	a.noteToVoice[note] = make([]int, a.maxVoices)
 	for i := range a.noteToVoice[note] {
-- 
2.43.0


From 871e4db4832b57b72e29c58ad9c91ed4bea4fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 043/101] fix: an allocator without voices panicked in mono and
 legato mode

---
 pkg/framework/voice/allocator.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index cd7c2ab..ef570e5 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -108,12 +108,12 @@ func (a *Allocator) SetStealingMode(mode StealingMode) {
 
 // SetMaxVoices sets the maximum number of active voices
 func (a *Allocator) SetMaxVoices(max int) {
-	if max > len(a.voices) {
-		max = len(a.voices)
-	}
 	if max < 1 {
 		max = 1
 	}
+	if max > len(a.voices) {
+		max = len(a.voices)
+	}
 	// Voices beyond the new maximum end now: nothing would release them later
 	for i := max; i < a.maxVoices; i++ {
 		a.forgetVoice(i)
@@ -156,6 +156,10 @@ func (a *Allocator) NoteOn(note uint8, velocity uint8) {
 	// A key that is down again is held by the key, not by the pedal
 	delete(a.sustainedNotes, note)
 
+	if a.maxVoices == 0 {
+		return
+	}
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From f3f0150be41047cc7cd75bbfcddc87752eaefddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 044/101] fix: a parameter registered during Save made the
 saved count disagree with the saved parameters

---
 pkg/framework/state/manager.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 7b3eacf..0743f4b 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -58,14 +58,15 @@ func (m *Manager) Save(w io.Writer) error {
 		return err
 	}
 
-	// Write parameter count
-	paramCount := m.registry.Count()
-	if err := binary.Write(w, binary.LittleEndian, paramCount); err != nil {
+	// Write parameter count, of the same list that is written: a parameter may
+	// be registered meanwhile
+	params := m.registry.All()
+	if err := binary.Write(w, binary.LittleEndian, int32(len(params))); err != nil {
 		return err
 	}
 
 	// Write each parameter
-	for _, param := range m.registry.All() {
+	for _, param := range params {
 		// Write ID
 		if err := binary.Write(w, binary.LittleEndian, param.ID); err != nil {
 			return err
-- 
2.43.0


From 9da533f2d8ca6718c5a082f5839372fad3ebd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 045/101] fix: loading a truncated state changed the parameters
 read before the end

---
 pkg/framework/state/manager.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 0743f4b..9fc2f85 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -120,7 +120,13 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
-	// Read each parameter
+	// Read each parameter; the values are set once all of them were read, so a
+	// damaged state changes nothing
+	type savedValue struct {
+		id    uint32
+		value float64
+	}
+	var saved []savedValue
 	for i := int32(0); i < paramCount; i++ {
 		var id uint32
 		if err := binary.Read(r, binary.LittleEndian, &id); err != nil {
@@ -132,11 +138,7 @@ func (m *Manager) Load(r io.Reader) error {
 			return err
 		}
 
-		// Set parameter value if it exists
-		if param := m.registry.Get(id); param != nil {
-			param.SetValue(value)
-		}
-		// Ignore unknown parameters for forward compatibility
+		saved = append(saved, savedValue{id, value})
 	}
 
 	// Check for custom data
@@ -145,6 +147,14 @@ func (m *Manager) Load(r io.Reader) error {
 		return err
 	}
 
+	// Set each parameter value if the parameter exists
+	for _, s := range saved {
+		if param := m.registry.Get(s.id); param != nil {
+			param.SetValue(s.value)
+		}
+		// Ignore unknown parameters for forward compatibility
+	}
+
 	if hasCustom != 0 {
 		if m.customLoad != nil {
 			return m.customLoad(r)
-- 
2.43.0


From eca915e000ef7f5b1853324fd3fc309f88f44318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 046/101] fix: a state with a negative parameter count was
 loaded as if it held no parameters

---
 pkg/framework/state/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/state/manager.go b/pkg/framework/state/manager.go
index 9fc2f85..691a12d 100644
--- a/pkg/framework/state/manager.go
+++ b/pkg/framework/state/manager.go
@@ -119,6 +119,9 @@ func (m *Manager) Load(r io.Reader) error {
 	if err := binary.Read(r, binary.LittleEndian, &paramCount); err != nil {
 		return err
 	}
+	if paramCount < 0 {
+		return fmt.Errorf("invalid parameter count %d", paramCount)
+	}
 
 	// Read each parameter; the values are set once all of them were read, so a
 	// damaged state changes nothing
-- 
2.43.0


From 7f08dacd1011da13fda980a50dbba2948b10ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 047/101] fix: the text shown for a Q parameter could not be
 typed back in

---
 pkg/framework/param/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 26afb08..86e4303 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -175,7 +175,11 @@ func QParameter(id uint32, name string, minQ, maxQ, defaultQ float64) *Builder {
 		Default(defaultQ).
 		Formatter(func(v float64) string {
 			return fmt.Sprintf("Q: %.2f", v)
-		}, nil)
+		}, func(s string) (float64, error) {
+			s = strings.TrimSpace(strings.ToLower(s))
+			s = strings.TrimPrefix(s, "q:")
+			return parseFloat(strings.TrimSpace(s))
+		})
 }
 
 // PanParameter creates a stereo pan parameter
-- 
2.43.0


From b7d18a31b0242dfc542926081f37409556c4369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 048/101] fix: a choice parameter showed the option before the
 one its value stands for

---
 pkg/framework/param/builders.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index 86e4303..f8041c5 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -2,6 +2,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -14,25 +15,16 @@ type ChoiceOption struct {
 
 // Choice creates a parameter builder for a multiple choice parameter
 func Choice(id uint32, name string, options []ChoiceOption) *Builder {
-	// Create name list for formatter
-	names := make([]string, len(options))
-	for i, opt := range options {
-		names[i] = opt.Name
-	}
-
-	// Create formatter
+	// Create formatter: the option nearest to the value, which need not be met
+	// exactly after a conversion to normalized and back
 	formatter := func(value float64) string {
+		name, nearest := "Unknown", math.Inf(1)
 		for _, opt := range options {
-			if opt.Value == value {
-				return opt.Name
+			if distance := math.Abs(opt.Value - value); distance < nearest {
+				name, nearest = opt.Name, distance
 			}
 		}
-		// Fallback to index-based lookup for integer values
-		index := int(value)
-		if index >= 0 && index < len(names) {
-			return names[index]
-		}
-		return "Unknown"
+		return name
 	}
 
 	// Create parser
-- 
2.43.0


From f1d06527b0b822d48980512812e3e2dd7d1c8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 049/101] fix: a choice parameter had one step too many, and
 none without options

---
 pkg/framework/param/builders.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/framework/param/builders.go b/pkg/framework/param/builders.go
index f8041c5..6c8b2fe 100644
--- a/pkg/framework/param/builders.go
+++ b/pkg/framework/param/builders.go
@@ -46,18 +46,18 @@ func Choice(id uint32, name string, options []ChoiceOption) *Builder {
 		return 0, fmt.Errorf("unknown option: %s", str)
 	}
 
-	// Determine range and steps
-	minVal := 0.0
-	maxVal := float64(len(options) - 1)
+	// Determine range and steps: as many steps as there are between options
+	minVal, maxVal, steps := 0.0, 0.0, 0
 	if len(options) > 0 {
 		minVal = options[0].Value
 		maxVal = options[len(options)-1].Value
+		steps = len(options) - 1
 	}
 
 	return New(id, name).
 		Range(minVal, maxVal).
-		Steps(int32(len(options))).
-		Default(options[0].Value).
+		Steps(int32(steps)).
+		Default(minVal).
 		Formatter(formatter, parser)
 }
 
-- 
2.43.0


From a177518a8bd9e8b239eb11e36c104491552edec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 050/101] fix: formatting a note number below zero panicked

---
 pkg/framework/param/formatters.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 0d50798..8e25a83 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -161,8 +161,9 @@ func PanParser(str string) (float64, error) {
 // NoteFormatter formats MIDI note numbers
 func NoteFormatter(noteNumber float64) string {
 	notes := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
-	note := int(noteNumber) % 12
-	octave := int(noteNumber)/12 - 1
+	nearest := int(math.Round(noteNumber))
+	note := (nearest%12 + 12) % 12
+	octave := (nearest-note)/12 - 1
 	return fmt.Sprintf("%s%d", notes[note], octave)
 }
 
-- 
2.43.0


From b1bf9b6499ce429e08e44808a976edbee1aa1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 051/101] fix: B sharp and C flat were parsed an octave off

---
 pkg/framework/param/formatters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/formatters.go b/pkg/framework/param/formatters.go
index 8e25a83..2135eca 100644
--- a/pkg/framework/param/formatters.go
+++ b/pkg/framework/param/formatters.go
@@ -172,7 +172,7 @@ func NoteParser(str string) (float64, error) {
 	str = strings.ToUpper(strings.TrimSpace(str))
 
 	noteMap := map[string]int{
-		"C": 0, "B#": 0,
+		"C": 0, "B#": 12,
 		"C#": 1, "DB": 1,
 		"D":  2,
 		"D#": 3, "EB": 3,
@@ -183,7 +183,7 @@ func NoteParser(str string) (float64, error) {
 		"G#": 8, "AB": 8,
 		"A":  9,
 		"A#": 10, "BB": 10,
-		"B": 11, "CB": 11,
+		"B": 11, "CB": -1,
 	}
 
 	// Find where the octave number starts
-- 
2.43.0


From f410d5dafe08ea0f86a9bb8c295d002b665d8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 052/101] fix: reading a delay line beyond what it holds
 panicked

---
 pkg/dsp/delay/delay.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..48b2b8d 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -41,6 +41,13 @@ func (d *Line) Write(sample float32) {
 
 // Read gets a delayed sample (delay in samples)
 func (d *Line) Read(delaySamples float64) float32 {
+	// The line holds the last bufferSize samples
+	if !(delaySamples >= 1) {
+		delaySamples = 1
+	} else if delaySamples > float64(d.bufferSize) {
+		delaySamples = float64(d.bufferSize)
+	}
+
 	// Calculate read position
 	readPos := float64(d.writePos) - delaySamples
 	if readPos < 0 {
@@ -50,6 +57,9 @@ func (d *Line) Read(delaySamples float64) float32 {
 	// Linear interpolation
 	readPosInt := int(readPos)
 	frac := float32(readPos - float64(readPosInt))
+	if readPosInt >= d.bufferSize { // adding the size can round up to it
+		readPosInt = 0
+	}
 
 	// Get two samples for interpolation
 	s1 := d.buffer[readPosInt]
-- 
2.43.0


From 16359b927179b72e8242996cfdeda3b8e3da332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 053/101] fix: the FDN damping filter was upside down: no
 damping silenced it

---
 pkg/dsp/reverb/fdn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 1b44b19..9e03620 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -66,7 +66,7 @@ func NewDampingFilter() *DampingFilter {
 func (d *DampingFilter) SetDamping(damping float64) {
 	// Convert damping to lowpass coefficient
 	// Higher damping = lower cutoff frequency
-	d.coeff = 1.0 - math.Max(0.0, math.Min(1.0, damping))
+	d.coeff = math.Max(0.0, math.Min(1.0, damping))
 }
 
 // Process applies the damping filter
-- 
2.43.0


From 71aebd20e9fc687d6d63097c148e41e8e925d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 054/101] fix: FDN decay and diffusion were applied twice

---
 pkg/dsp/reverb/fdn.go | 27 ---------------------------
 1 file changed, 27 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 9e03620..3d5878b 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -250,33 +250,6 @@ func (f *FDN) updateInternalParameters() {
 	for i := 0; i < f.numDelays; i++ {
 		f.dampingFilters[i].SetDamping(f.damping)
 	}
-
-	// Scale feedback matrix by decay amount
-	// Higher decay = more feedback = longer reverb tail
-	decayScale := 0.4 + f.decay*0.58 // Range from 0.4 to 0.98
-
-	// Apply diffusion by mixing with identity matrix
-	// Low diffusion = more parallel delays, high diffusion = more mixing
-	diffusionMix := f.diffusion
-	
-	// Create base Hadamard matrix
-	f.createHadamardMatrix()
-	
-	// Apply decay and diffusion scaling to feedback matrix
-	for i := 0; i < f.numDelays; i++ {
-		for j := 0; j < f.numDelays; j++ {
-			// Store original Hadamard value
-			hadamardValue := f.feedbackMatrix[i][j]
-			
-			if i == j {
-				// Mix between identity (no diffusion) and Hadamard (full diffusion)
-				f.feedbackMatrix[i][j] = decayScale * ((1.0-diffusionMix) + diffusionMix*hadamardValue)
-			} else {
-				// Off-diagonal elements scaled by diffusion
-				f.feedbackMatrix[i][j] = decayScale * diffusionMix * hadamardValue
-			}
-		}
-	}
 }
 
 // Process processes a mono input sample
-- 
2.43.0


From e574193c584607357a09a04e5e8d5f22047062ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 055/101] fix: the FDN with 8 lines had a matrix of gain 2.8
 and grew without bound

---
 pkg/dsp/reverb/fdn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 3d5878b..87892e7 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -2,6 +2,7 @@ package reverb
 
 import (
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -162,12 +163,12 @@ func (f *FDN) createHadamardMatrix() {
 			}
 		}
 	} else if n == 8 {
-		// 8x8 Hadamard matrix (simplified)
+		// 8x8 Hadamard matrix
 		scale := 1.0 / math.Sqrt(8.0)
 		for i := 0; i < 8; i++ {
 			for j := 0; j < 8; j++ {
-				// Create a pattern that provides good diffusion
-				if (i+j)%2 == 0 {
+				// The sign is the parity of the bits i and j have in common
+				if bits.OnesCount(uint(i&j))%2 == 0 {
 					f.feedbackMatrix[i][j] = scale
 				} else {
 					f.feedbackMatrix[i][j] = -scale
-- 
2.43.0


From c9fefe67c2939c65ff527e1491c1538c3876b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 056/101] fix: the stereo FDN mixed wet and dry twice

---
 pkg/dsp/reverb/fdn.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/dsp/reverb/fdn.go b/pkg/dsp/reverb/fdn.go
index 87892e7..57d330f 100644
--- a/pkg/dsp/reverb/fdn.go
+++ b/pkg/dsp/reverb/fdn.go
@@ -255,6 +255,14 @@ func (f *FDN) updateInternalParameters() {
 
 // Process processes a mono input sample
 func (f *FDN) Process(input float32) float32 {
+	output := f.processNetwork(input)
+
+	// Apply wet/dry mix
+	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+}
+
+// processNetwork runs the delay network on one sample and returns its output
+func (f *FDN) processNetwork(input float32) float32 {
 	// Read outputs from all delay lines
 	delayOutputs := f.delayOutputs
 
@@ -332,9 +340,7 @@ func (f *FDN) Process(input float32) float32 {
 	for i := 0; i < f.numDelays; i++ {
 		output += delayOutputs[i] * float32(f.outputGains[i])
 	}
-
-	// Apply wet/dry mix
-	return input*float32(f.dryLevel) + output*float32(f.wetLevel)
+	return output
 }
 
 // ProcessStereo processes stereo input
@@ -343,7 +349,7 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 	mono := (inputL + inputR) * 0.5
 
 	// Process through FDN
-	processed := f.Process(mono)
+	processed := f.processNetwork(mono)
 
 	// Create stereo output by using different combinations of delay outputs
 	// This is a simplified approach - a full implementation would have
@@ -370,8 +376,8 @@ func (f *FDN) ProcessStereo(inputL, inputR float32) (outputL, outputR float32) {
 
 		// Add decorrelated signals to create width
 		spread := float32(0.3)
-		outputL += delay1 * spread * float32(f.wetLevel)
-		outputR += delay2 * spread * float32(f.wetLevel)
+		outputL += delay1 * spread
+		outputR += delay2 * spread
 	}
 
 	// Apply final wet/dry mix
-- 
2.43.0


From 3b8a2e8f4fe322029c49899e751852005a6d1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 057/101] fix: a frozen Freeverb faded and let new sound in

---
 pkg/dsp/reverb/freeverb.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/reverb/freeverb.go b/pkg/dsp/reverb/freeverb.go
index 101e727..415aeca 100644
--- a/pkg/dsp/reverb/freeverb.go
+++ b/pkg/dsp/reverb/freeverb.go
@@ -153,17 +153,19 @@ func (f *Freeverb) update() {
 	f.dry = f.dryLevel
 
 	// Apply freeze mode if active
-	var roomSize, damping float64
+	var feedback, damping float64
 	if f.mode >= 0.5 {
-		roomSize = freezeRoom
+		// What is in the tank stays, and nothing new gets in
+		feedback = freezeRoom
 		damping = freezeDamp
+		f.gain = muted
 	} else {
-		roomSize = f.roomSize
+		feedback = f.roomSize*scaleRoom + offsetRoom
 		damping = f.damping
+		f.gain = fixedGain
 	}
 
-	// Calculate feedback and damping values
-	feedback := roomSize*scaleRoom + offsetRoom
+	// Calculate damping values
 	f.damp1 = damping * scaleDamping
 	f.damp2 = 1.0 - f.damp1
 
-- 
2.43.0


From ed5001aeb49f5d8f80f51914d59fe521b20f579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 058/101] fix: an oscillator with a negative frequency never
 wrapped its phase

---
 pkg/dsp/oscillator/oscillator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..2cd47b8 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0.0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
-- 
2.43.0


From 29599bb22ffe5bb73384f30083563aa7ef4342ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 059/101] fix: the band-limited impulse train was neither
 band-limited nor an impulse train

---
 pkg/dsp/oscillator/oscillator.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 2cd47b8..3d1de23 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -166,21 +166,16 @@ func (b *BLITOscillator) SetFrequency(freq float64) {
 // BLIT generates a band-limited impulse train sample
 func (b *BLITOscillator) BLIT() float32 {
 	// Generate BLIT using closed-form solution
-	phase2pi := 2.0 * math.Pi * b.phase
+	phasePi := math.Pi * b.phase
 
 	var sample float64
-	if b.phase < b.phaseInc || b.phase > (1.0-b.phaseInc) {
-		// Near discontinuity, use limit value
-		sample = b.a
+	denom := math.Sin(phasePi)
+	if math.Abs(denom) > 1e-10 {
+		num := math.Sin(float64(2*b.m+1) * phasePi)
+		sample = b.a * num / denom
 	} else {
-		// Normal BLIT formula
-		denom := math.Sin(phase2pi)
-		if math.Abs(denom) > 1e-10 {
-			num := math.Sin(float64(2*b.m+1) * phase2pi)
-			sample = b.a * num / denom
-		} else {
-			sample = b.a
-		}
+		// At the impulse, use limit value
+		sample = 1.0
 	}
 
 	// Update phase
-- 
2.43.0


From 277986b391effda80adb7a0acccbdfd4491ab9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 060/101] fix: the band-limited sawtooth gave back its impulse
 train

---
 pkg/dsp/oscillator/oscillator.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 3d1de23..d847c16 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -189,10 +189,9 @@ func (b *BLITOscillator) BLIT() float32 {
 
 // BandLimitedSaw generates an alias-free sawtooth using integrated BLIT
 type BandLimitedSaw struct {
-	blit    *BLITOscillator
-	leaky   float64 // leaky integrator coefficient
-	state   float64 // integrator state
-	dcBlock float64 // DC blocking filter state
+	blit  *BLITOscillator
+	leaky float64 // leaky integrator coefficient
+	state float64 // integrator state
 }
 
 // NewBandLimitedSaw creates a new band-limited sawtooth oscillator
@@ -200,6 +199,7 @@ func NewBandLimitedSaw(sampleRate float64) *BandLimitedSaw {
 	return &BandLimitedSaw{
 		blit:  NewBLIT(sampleRate),
 		leaky: 0.999, // Slight leak to prevent DC buildup
+		state: -0.5,  // Half a step below zero, where the first impulse starts from
 	}
 }
 
@@ -213,15 +213,11 @@ func (s *BandLimitedSaw) Next() float32 {
 	// Get BLIT sample
 	blit := float64(s.blit.BLIT())
 
-	// Leaky integration
-	s.state = s.leaky*s.state + blit
+	// Leaky integration of the impulses without their mean
+	s.state = s.leaky*s.state + blit - s.blit.a
 
-	// DC blocking
-	output := s.state - s.dcBlock
-	s.dcBlock = s.state * 0.999
-
-	// Scale to [-1, 1]
-	return float32(output * s.blit.phaseInc * 4.0)
+	// Rise from -1 to 1 like the naive sawtooth
+	return float32(-s.state * 2.0 * s.blit.phaseInc / s.blit.a)
 }
 
 // Process fills buffer with band-limited sawtooth - no allocations
-- 
2.43.0


From 2b3e531bc28883cb2d0e124a354646a85e401b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 061/101] fix: an envelope whose sustain was lowered during its
 decay stayed at the old level

---
 pkg/dsp/envelope/envelope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..46d3fbb 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -148,7 +148,7 @@ func (e *ADSR) Next() float32 {
 		}
 
 	case StageDecay:
-		e.value = e.target + (e.value-e.target)*e.decayCoef
+		e.value = e.sustain + (e.value-e.sustain)*e.decayCoef
 		if e.value <= e.sustain+0.001 {
 			e.value = e.sustain
 			e.stage = StageSustain
-- 
2.43.0


From f6bd057477079845e80288316f9bdea2888b979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 062/101] fix: violet noise was filtered white noise with
 nothing at the top

---
 pkg/dsp/utility/noise.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index b2a3a59..785fd59 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -36,7 +36,8 @@ type NoiseGenerator struct {
 	brownState float32
 	
 	// Blue/Violet noise state  
-	blueState float32
+	blueState   float32
+	violetState float32
 	
 	// Random source
 	rand *rand.Rand
@@ -105,6 +106,7 @@ func (n *NoiseGenerator) GenerateAdd(buffer []float32, gain float32) {
 func (n *NoiseGenerator) Reset() {
 	n.brownState = 0
 	n.blueState = 0
+	n.violetState = 0
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
@@ -192,8 +194,8 @@ func (n *NoiseGenerator) generateBlue() float32 {
 func (n *NoiseGenerator) generateViolet() float32 {
 	// Violet noise has even more high frequency content
 	blue := n.generateBlue()
-	output := blue - n.blueState
-	n.blueState = blue
+	output := blue - n.violetState
+	n.violetState = blue
 	
 	// Scale to maintain amplitude
 	return output * 0.25
-- 
2.43.0


From 629cb5200e2f8744bfc697bfb52dadacc7091fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 063/101] fix: pink noise carried an offset of rows that were
 never in its sum

---
 pkg/dsp/utility/noise.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index 785fd59..f04fa6e 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -45,18 +45,11 @@ type NoiseGenerator struct {
 
 // NewNoiseGenerator creates a new noise generator.
 func NewNoiseGenerator(noiseType NoiseType) *NoiseGenerator {
-	gen := &NoiseGenerator{
+	return &NoiseGenerator{
 		noiseType:  noiseType,
 		rand:       rand.New(rand.NewSource(rand.Int63())),
 		pinkScalar: 1.0 / 20.0, // Normalization for pink noise
 	}
-	
-	// Initialize pink noise rows
-	for i := range gen.pinkRows {
-		gen.pinkRows[i] = gen.randomFloat()
-	}
-	
-	return gen
 }
 
 // SetType changes the noise type.
@@ -110,7 +103,7 @@ func (n *NoiseGenerator) Reset() {
 	n.pinkIndex = 0
 	n.pinkRunningSum = 0
 	for i := range n.pinkRows {
-		n.pinkRows[i] = n.randomFloat()
+		n.pinkRows[i] = 0
 	}
 }
 
-- 
2.43.0


From f7f10e2c68a3f0103205d793216d9cf376e8cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 064/101] fix: Gaussian noise could be infinite

---
 pkg/dsp/utility/noise.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/utility/noise.go b/pkg/dsp/utility/noise.go
index f04fa6e..425122a 100644
--- a/pkg/dsp/utility/noise.go
+++ b/pkg/dsp/utility/noise.go
@@ -232,7 +232,7 @@ func (g *GaussianNoise) Next() float32 {
 	g.hasSpare = true
 	
 	// Box-Muller transform
-	u1 := g.rand.Float64()
+	u1 := 1.0 - g.rand.Float64() // in (0, 1], the logarithm is finite
 	u2 := g.rand.Float64()
 	
 	mag := float32(math.Sqrt(-2.0 * math.Log(u1)))
-- 
2.43.0


From 17017105b91f338e7b4e2db3da52b9588242fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 065/101] fix: an RMS detector could turn to NaN after a loud
 passage

---
 pkg/dsp/envelope/detector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..de6ded4 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -176,7 +176,8 @@ func (d *Detector) Detect(input float32) float32 {
 		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen
 
 		// Calculate RMS
-		meanSquare := d.rmsSum / float64(d.rmsWindowLen)
+		// Rounding can leave a small negative sum behind a loud passage
+		meanSquare := math.Max(0.0, d.rmsSum) / float64(d.rmsWindowLen)
 		inputLevel = math.Sqrt(meanSquare)
 	}
 
-- 
2.43.0


From 9ff208cdf4f5421bafc151894e2f3fb6cf2048d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 066/101] fix: soft knee of the compressor amplified signals in
 its lower half

---
 pkg/dsp/dynamics/compressor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..b859d01 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -145,7 +145,9 @@ func (c *Compressor) computeGain(inputDB float64) float64 {
 
 		// Smooth transition using squared interpolation
 		kneeGain := kneePos * kneePos * overshoot * compressionRatio
-		return kneeGain
+
+		// Below the threshold there is nothing to reduce
+		return math.Max(0.0, kneeGain)
 	}
 
 	// Hard knee (shouldn't reach here if knee width is 0)
-- 
2.43.0


From 877f73502e8da01234f728a11ff910e3a2418641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 067/101] fix: hard knee of the compressor left the upper half
 of the knee width uncompressed

---
 pkg/dsp/dynamics/compressor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index b859d01..11f91a1 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -150,8 +150,8 @@ func (c *Compressor) computeGain(inputDB float64) float64 {
 		return math.Max(0.0, kneeGain)
 	}
 
-	// Hard knee (shouldn't reach here if knee width is 0)
-	return 0.0
+	// Hard knee: the width has no effect
+	return math.Max(0.0, inputDB-c.threshold) * (1.0 - 1.0/c.ratio)
 }
 
 // Process processes a single sample
-- 
2.43.0


From 7eaa2473d9e64f260b31ec67ce10eb224203ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 068/101] fix: soft knee of the expander amplified signals in
 its upper half and ignored the range

---
 pkg/dsp/dynamics/expander.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..214b689 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -137,8 +137,9 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 		// Calculate full expansion at this level
 		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
 
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation: nothing to expand above the threshold, and
+		// never more than the range
+		return math.Max(e.range_, math.Min(0.0, kneePos*kneePos*fullGain))
 	}
 
 	return 0.0
-- 
2.43.0


From cd9dae7c32d59ba1486ec753dbddb62c7247a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 069/101] fix: limiter let peaks above its ceiling through
 while its detector rose

---
 pkg/dsp/dynamics/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..2ea940e 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -146,6 +146,9 @@ func (l *Limiter) Process(input float32) float32 {
 	// Get envelope
 	envelope := l.detector.Detect(detectionSignal)
 
+	// The detector approaches a peak gradually; the ceiling holds at once
+	envelope = float32(math.Max(float64(envelope), math.Abs(float64(processSignal))))
+
 	// Convert to dB
 	inputDB := float64(-96.0)
 	if envelope > 0 {
@@ -201,6 +204,9 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Detect from combined peak
 		envelope := l.detector.Detect(maxPeak)
 
+		// The detector approaches a peak gradually; the ceiling holds at once
+		envelope = float32(math.Max(float64(envelope), float64(maxPeak)))
+
 		// Calculate limiting
 		inputDB := float64(-96.0)
 		if envelope > 0 {
-- 
2.43.0


From d0a78d238982afadeb1b89abc7c228ece36f546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 070/101] fix: flanger scaled the wet signal of its right
 channel by the mix twice

---
 pkg/dsp/modulation/flanger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/modulation/flanger.go b/pkg/dsp/modulation/flanger.go
index 1a5ba6a..fef7c13 100644
--- a/pkg/dsp/modulation/flanger.go
+++ b/pkg/dsp/modulation/flanger.go
@@ -179,7 +179,7 @@ func (f *Flanger) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Create right channel with inverted wet signal
 	outputL = flangedL
-	outputR = inputR*(1-float32(f.mix)) - wetL*float32(f.mix)
+	outputR = inputR*(1-float32(f.mix)) - wetL
 
 	return outputL, outputR
 }
-- 
2.43.0


From 7c967a93b63f72230a70aa4fbf5ba26a9b0879fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 071/101] fix: anti-alias filter of the bitcrusher diverged at
 small rate reductions

---
 pkg/dsp/distortion/bitcrusher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index b3fa49b..4456091 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -160,7 +160,12 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 
 	// Calculate filter coefficient
 	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
-	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
+	// At a quarter of the sample rate and above there is nothing left to
+	// take off; the coefficient would leave [0, 1] and the filter diverge
+	alpha := 1.0
+	if omega < math.Pi/2.0 {
+		alpha = math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
+	}
 
 	// Apply filter
 	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])
-- 
2.43.0


From db057c70129f6a4e711b90b86031afffbaceb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 072/101] fix: tube saturation ran both channels of a stereo
 signal through one state

---
 pkg/dsp/distortion/tube.go | 54 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..fc9958b 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -13,12 +13,12 @@ type TubeSaturation struct {
 	output     float64
 
 	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	prevInput  [2]float64
+	prevOutput [2]float64
 
 	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	preEmphasisState [2]float64
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
-- 
2.43.0


From 91f377afc9b74238be2a5be93b51894fb00fd2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 073/101] fix: tape compression of a stereo signal alternated
 one envelope between the channels

---
 pkg/dsp/distortion/tape.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index c8cb9ee..0e6ea01 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -30,7 +30,7 @@ type TapeSaturation struct {
 	delayWritePos   int
 
 	// Compression state
-	envelope float64
+	envelope [2]float64
 
 	// Noise generator for tape hiss
 	noiseLevel float64
@@ -94,13 +94,13 @@ func (t *TapeSaturation) processChannel(input float64, channel int) float64 {
 	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tape compression
-	compressed := t.tapeCompress(emphasized)
+	compressed := t.tapeCompress(emphasized, channel)
 
 	// Apply tape saturation
 	saturated := t.tapeSaturate(compressed)
 
 	// Apply flutter (pitch modulation)
-	fluttered := t.applyFlutter(saturated)
+	fluttered := t.applyFlutter(saturated, channel)
 
 	// Add subtle tape noise
 	withNoise := fluttered + (t.randFloat()*2.0-1.0)*t.noiseLevel*t.saturation
@@ -144,7 +144,7 @@ func (t *TapeSaturation) tapeSaturate(x float64) float64 {
 	return saturated*0.8 + third*0.2*t.saturation
 }
 
-func (t *TapeSaturation) tapeCompress(x float64) float64 {
+func (t *TapeSaturation) tapeCompress(x float64, channel int) float64 {
 	// Tape-style compression (program-dependent)
 
 	// Update envelope follower
@@ -152,21 +152,21 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	attack := 0.01
 	release := 0.1
 
-	if absX > t.envelope {
-		t.envelope += (absX - t.envelope) * attack
+	if absX > t.envelope[channel] {
+		t.envelope[channel] += (absX - t.envelope[channel]) * attack
 	} else {
-		t.envelope += (absX - t.envelope) * release
+		t.envelope[channel] += (absX - t.envelope[channel]) * release
 	}
 
 	// Calculate compression
 	threshold := 0.5
 	ratio := 2.0 + t.compression*3.0 // 2:1 to 5:1
 
-	if t.envelope > threshold {
+	if t.envelope[channel] > threshold {
 		// Calculate gain reduction
-		excess := t.envelope - threshold
+		excess := t.envelope[channel] - threshold
 		compressedExcess := excess / ratio
-		gainReduction := (threshold + compressedExcess) / t.envelope
+		gainReduction := (threshold + compressedExcess) / t.envelope[channel]
 
 		// Apply compression
 		return x * gainReduction
@@ -175,7 +175,7 @@ func (t *TapeSaturation) tapeCompress(x float64) float64 {
 	return x
 }
 
-func (t *TapeSaturation) applyFlutter(x float64) float64 {
+func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	if t.flutter < 0.01 {
 		return x
 	}
@@ -247,7 +247,7 @@ func (t *TapeSaturation) Reset() {
 	t.preEmphasisState[1] = 0.0
 	t.deEmphasisState[0] = 0.0
 	t.deEmphasisState[1] = 0.0
-	t.envelope = 0.0
+	t.envelope = [2]float64{}
 	t.flutterPhase = 0.0
 	t.flutterRate = tapeFlutterRate
 	t.randState = tapeRandSeed
-- 
2.43.0


From 4ec87fe00c94cf33f9bf014d659f68c5518f21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 074/101] fix: tape flutter wrote both channels of a stereo
 signal into one delay line

---
 pkg/dsp/distortion/tape.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pkg/dsp/distortion/tape.go b/pkg/dsp/distortion/tape.go
index 0e6ea01..db9cfde 100644
--- a/pkg/dsp/distortion/tape.go
+++ b/pkg/dsp/distortion/tape.go
@@ -24,10 +24,10 @@ type TapeSaturation struct {
 	flutterPhase float64
 	flutterRate  float64
 
-	// Delay buffer for flutter effect
-	delayBuffer     []float64
+	// Delay buffers for flutter effect, one per channel
+	delayBuffer     [2][]float64
 	delayBufferSize int
-	delayWritePos   int
+	delayWritePos   [2]int
 
 	// Compression state
 	envelope [2]float64
@@ -53,7 +53,7 @@ func NewTapeSaturation(sampleRate float64) *TapeSaturation {
 		mix:             1.0,
 		output:          1.0,
 		sampleRate:      sampleRate,
-		delayBuffer:     make([]float64, bufferSize),
+		delayBuffer:     [2][]float64{make([]float64, bufferSize), make([]float64, bufferSize)},
 		delayBufferSize: bufferSize,
 		flutterRate:     tapeFlutterRate,
 		noiseLevel:      0.0001,
@@ -181,11 +181,14 @@ func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	}
 
 	// Write to delay buffer
-	t.delayBuffer[t.delayWritePos] = x
-	t.delayWritePos = (t.delayWritePos + 1) % t.delayBufferSize
+	buffer := t.delayBuffer[channel]
+	buffer[t.delayWritePos[channel]] = x
+	t.delayWritePos[channel] = (t.delayWritePos[channel] + 1) % t.delayBufferSize
 
-	// Calculate flutter modulation
-	t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
+	// Calculate flutter modulation (the tape moves once for both channels)
+	if channel == 0 {
+		t.flutterPhase += 2.0 * math.Pi * t.flutterRate / t.sampleRate
+	}
 	if t.flutterPhase > 2.0*math.Pi {
 		t.flutterPhase -= 2.0 * math.Pi
 		// Occasionally change flutter rate slightly
@@ -209,11 +212,11 @@ func (t *TapeSaturation) applyFlutter(x float64, channel int) float64 {
 	delayFrac := delaySamples - float64(delayInt)
 
 	// Read from delay buffer with interpolation
-	readPos1 := (t.delayWritePos - delayInt + t.delayBufferSize) % t.delayBufferSize
+	readPos1 := (t.delayWritePos[channel] - delayInt + t.delayBufferSize) % t.delayBufferSize
 	readPos2 := (readPos1 - 1 + t.delayBufferSize) % t.delayBufferSize
 
-	sample1 := t.delayBuffer[readPos1]
-	sample2 := t.delayBuffer[readPos2]
+	sample1 := buffer[readPos1]
+	sample2 := buffer[readPos2]
 
 	return sample1*(1.0-delayFrac) + sample2*delayFrac
 }
@@ -251,11 +254,13 @@ func (t *TapeSaturation) Reset() {
 	t.flutterPhase = 0.0
 	t.flutterRate = tapeFlutterRate
 	t.randState = tapeRandSeed
-	t.delayWritePos = 0
+	t.delayWritePos = [2]int{}
 
-	// Clear delay buffer
-	for i := range t.delayBuffer {
-		t.delayBuffer[i] = 0.0
+	// Clear delay buffers
+	for _, buffer := range t.delayBuffer {
+		for i := range buffer {
+			buffer[i] = 0.0
+		}
 	}
 }
 
-- 
2.43.0


From 5a5e301983af30c62a750a5be64e4d4011cf2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 075/101] fix: tremolo set the right phase from zero instead of
 from the left phase

---
 pkg/dsp/modulation/tremolo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 4834625..72e994f 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -115,11 +115,11 @@ func (t *Tremolo) updateLFOs() {
 	t.lfoR.SetFrequency(t.rate)
 	t.lfoR.SetWaveform(t.waveform)
 
-	// Set phase offset for stereo
+	// Set phase offset from the left LFO for stereo
 	if t.stereo {
-		t.lfoR.SetPhase(t.phase)
+		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)
 	} else {
-		t.lfoR.SetPhase(0.0) // Same phase as left
+		t.lfoR.SetPhase(t.lfoL.GetPhase()) // Same phase as left
 	}
 }
 
-- 
2.43.0


From bfeb91436a605780d479b3718e2bd12124a396ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 076/101] fix: tremolo's current gain stayed at one while it
 was not smoothed

---
 pkg/dsp/modulation/tremolo.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dsp/modulation/tremolo.go b/pkg/dsp/modulation/tremolo.go
index 72e994f..9928516 100644
--- a/pkg/dsp/modulation/tremolo.go
+++ b/pkg/dsp/modulation/tremolo.go
@@ -155,9 +155,9 @@ func (t *Tremolo) Process(input float32) float32 {
 
 	// Apply smoothing if enabled (mainly for square wave)
 	if t.smoothing {
-		t.smoothedGainL = gain + (t.smoothedGainL-gain)*t.smoothCoeff
-		gain = t.smoothedGainL
+		gain += (t.smoothedGainL - gain) * t.smoothCoeff
 	}
+	t.smoothedGainL = gain
 
 	// Apply amplitude modulation
 	return input * float32(gain)
@@ -188,11 +188,11 @@ func (t *Tremolo) ProcessStereo(inputL, inputR float32) (outputL, outputR float3
 
 	// Apply smoothing if enabled
 	if t.smoothing {
-		t.smoothedGainL = gainL + (t.smoothedGainL-gainL)*t.smoothCoeff
-		t.smoothedGainR = gainR + (t.smoothedGainR-gainR)*t.smoothCoeff
-		gainL = t.smoothedGainL
-		gainR = t.smoothedGainR
+		gainL += (t.smoothedGainL - gainL) * t.smoothCoeff
+		gainR += (t.smoothedGainR - gainR) * t.smoothCoeff
 	}
+	t.smoothedGainL = gainL
+	t.smoothedGainR = gainR
 
 	// Apply amplitude modulation
 	outputL = inputL * float32(gainL)
-- 
2.43.0


From 608da83874f6549f99ad886c0155cbc084a3f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 077/101] fix: CrossCorrelation uses both signals' full spectra

---
 pkg/dsp/analysis/fft.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pkg/dsp/analysis/fft.go b/pkg/dsp/analysis/fft.go
index 0667a32..2194705 100644
--- a/pkg/dsp/analysis/fft.go
+++ b/pkg/dsp/analysis/fft.go
@@ -2,7 +2,6 @@ package analysis
 
 import (
 	"math"
-	"math/cmplx"
 )
 
 // FFT performs a Fast Fourier Transform on the input data
@@ -313,25 +312,23 @@ func CrossCorrelation(a, b []float64) []float64 {
 	fft := NewFFT(size, RectangularWindow)
 	
 	// Zero-pad inputs
-	paddedA := make([]float64, size)
-	paddedB := make([]float64, size)
-	copy(paddedA, a)
-	copy(paddedB, b)
+	realA := make([]float64, size)
+	imagA := make([]float64, size)
+	realB := make([]float64, size)
+	imagB := make([]float64, size)
+	copy(realA, a)
+	copy(realB, b)
 	
 	// Forward FFT
-	magA, phaseA := fft.Forward(paddedA)
-	magB, phaseB := fft.Forward(paddedB)
+	fft.fft(realA, imagA)
+	fft.fft(realB, imagB)
 	
-	// Multiply A with conjugate of B
+	// Multiply the conjugate of A with B, over the full spectrum
 	realResult := make([]float64, size)
 	imagResult := make([]float64, size)
 	for i := 0; i < size; i++ {
-		// Convert to complex, multiply, then back to real/imag
-		aComplex := cmplx.Rect(magA[i%len(magA)], phaseA[i%len(phaseA)])
-		bComplex := cmplx.Rect(magB[i%len(magB)], -phaseB[i%len(phaseB)]) // conjugate
-		result := aComplex * bComplex
-		realResult[i] = real(result)
-		imagResult[i] = imag(result)
+		realResult[i] = realA[i]*realB[i] + imagA[i]*imagB[i]
+		imagResult[i] = realA[i]*imagB[i] - imagA[i]*realB[i]
 	}
 	
 	// Inverse FFT
-- 
2.43.0


From 8eb1cff4122b8f1a8bb2dfb053b43abd22db053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 078/101] fix: RMSMeter.GetRMS is never NaN after rounding

---
 pkg/dsp/analysis/meters.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 0caad1b..f5a2abb 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -168,7 +168,8 @@ func (rm *RMSMeter) GetRMS() float64 {
 		return 0
 	}
 	
-	return math.Sqrt(rm.sum / float64(rm.count))
+	// Rounding can leave the running sum slightly below zero
+	return math.Sqrt(math.Max(0, rm.sum/float64(rm.count)))
 }
 
 // GetRMSDB returns the current RMS level in decibels
-- 
2.43.0


From 9b4c33fca7d12d16055bcc2a5067aed1019b13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 079/101] fix: LUFS meter's second K-weighting stage is
 BS.1770's high-pass

---
 pkg/dsp/analysis/meters.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index f5a2abb..0e2120d 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -315,7 +315,7 @@ func (lm *LUFSMeter) createKWeightingPreFilter() *BiquadFilter {
 
 // createKWeightingHighShelf creates the K-weighting high shelf filter
 func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
-	// ITU-R BS.1770-4 high shelf coefficients
+	// ITU-R BS.1770-4 RLB high-pass coefficients
 	f0 := 38.13547087602444
 	Q := 0.5003270373238773
 	K := math.Tan(math.Pi * f0 / lm.sampleRate)
@@ -323,9 +323,9 @@ func (lm *LUFSMeter) createKWeightingHighShelf() *BiquadFilter {
 	a0 := 1.0 + K/Q + K*K
 	
 	return &BiquadFilter{
-		b0: (1.0 + math.Sqrt(2.0)*K + K*K) / a0,
-		b1: 2.0 * (K*K - 1.0) / a0,
-		b2: (1.0 - math.Sqrt(2.0)*K + K*K) / a0,
+		b0: 1.0,
+		b1: -2.0,
+		b2: 1.0,
 		a1: 2.0 * (K*K - 1.0) / a0,
 		a2: (1.0 - K/Q + K*K) / a0,
 	}
-- 
2.43.0


From b47d5b22d62c7e28e635fc0d10bc2c91a6648a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 080/101] fix: LUFS meter weights the channels of 5.0 and 5.1
 as BS.1770 does

---
 pkg/dsp/analysis/meters.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index 0e2120d..dba3dc5 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -492,6 +492,20 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 	return 10.0 * math.Log10(sum/float64(count))
 }
 
+// channelWeight returns the ITU-R BS.1770-4 weight of a channel
+// For mono and stereo: all channels have weight 1.0
+// For 5.0: L, R, C = 1.0, Ls, Rs = 1.41
+// For 5.1: L, R, C = 1.0, LFE = 0, Ls, Rs = 1.41
+func (lm *LUFSMeter) channelWeight(ch int) float64 {
+	switch {
+	case lm.channels == 6 && ch == 3:
+		return 0.0 // LFE
+	case lm.channels == 6 && ch >= 4, lm.channels == 5 && ch >= 3:
+		return 1.41 // Surround channels
+	}
+	return 1.0
+}
+
 // calculateBlockLoudness calculates loudness for a measurement block
 func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 	// Sum channel powers with channel weighting
@@ -501,17 +515,7 @@ func (lm *LUFSMeter) calculateBlockLoudness(block *LUFSBlock) float64 {
 	for _, powers := range block.blocks {
 		blockPower := 0.0
 		for ch, power := range powers {
-			// Apply channel weighting (ITU-R BS.1770-4)
-			// For stereo: both channels have weight 1.0
-			// For 5.1: L/R = 1.0, C = 1.0, Ls/Rs = 1.41, LFE = 0
-			weight := 1.0
-			if lm.channels > 2 && ch >= 3 && ch <= 4 {
-				weight = 1.41 // Surround channels
-			} else if lm.channels > 5 && ch == 3 {
-				weight = 0.0 // LFE
-			}
-			
-			blockPower += weight * power
+			blockPower += lm.channelWeight(ch) * power
 		}
 		
 		if blockPower > 0 {
-- 
2.43.0


From a6bc6f10f31d5b7c496935719623988d3603714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 081/101] fix: integrated loudness is gated over 400 ms blocks,
 whatever the host's block size

---
 pkg/dsp/analysis/meters.go | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index dba3dc5..f71677a 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -369,29 +369,6 @@ func (lm *LUFSMeter) Process(samples []float64) {
 	// Update momentary and short-term blocks
 	lm.updateBlock(lm.momentary, filtered)
 	lm.updateBlock(lm.shortTerm, filtered)
-	
-	// Update integrated measurement (every 100ms of new data)
-	samplesFor100ms := int(0.1 * lm.sampleRate * float64(lm.channels))
-	if len(filtered) >= samplesFor100ms {
-		// Calculate mean square for this block
-		meanSquare := 0.0
-		for ch := 0; ch < lm.channels; ch++ {
-			chPower := 0.0
-			count := 0
-			for i := ch; i < len(filtered); i += lm.channels {
-				chPower += filtered[i] * filtered[i]
-				count++
-			}
-			if count > 0 {
-				meanSquare += chPower / float64(count)
-			}
-		}
-		
-		if meanSquare > 0 {
-			loudness := -0.691 + 10.0*math.Log10(meanSquare)
-			lm.integrated.blocks = append(lm.integrated.blocks, loudness)
-		}
-	}
 }
 
 // updateBlock updates a loudness measurement block
@@ -416,6 +393,18 @@ func (lm *LUFSMeter) updateBlock(block *LUFSBlock, filtered []float64) {
 				}
 			}
 			
+			// Every completed 400 ms block counts towards the integrated loudness
+			if block == lm.momentary {
+				meanSquare := 0.0
+				for ch, power := range lm.channelPower {
+					meanSquare += lm.channelWeight(ch) * power
+				}
+				if meanSquare > 0 {
+					loudness := -0.691 + 10.0*math.Log10(meanSquare)
+					lm.integrated.blocks = append(lm.integrated.blocks, loudness)
+				}
+			}
+			
 			// Store channel powers
 			copy(block.blocks[block.writePos], lm.channelPower)
 			block.writePos = (block.writePos + 1) % len(block.blocks)
-- 
2.43.0


From b341c078856b12ba5fa63499e2b5d4bf5126040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 082/101] fix: integrated loudness's relative gate is set from
 the absolute-gated blocks

---
 pkg/dsp/analysis/meters.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index f71677a..c522698 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -286,7 +286,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.integrated = &LUFSIntegrated{
 		blocks:       make([]float64, 0, 1000), // Pre-allocate for efficiency
 		absoluteGate: -70.0,                    // LUFS
-		relativeGate: -10.0,                    // dB below ungated loudness
+		relativeGate: -10.0,                    // dB below absolute-gated loudness
 	}
 	
 	return lm
@@ -442,15 +442,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// First pass: calculate ungated loudness
-	sum := 0.0
-	for _, block := range lm.integrated.blocks {
-		sum += math.Pow(10.0, block/10.0)
-	}
-	ungatedLoudness := 10.0 * math.Log10(sum/float64(len(lm.integrated.blocks)))
-	
 	// Apply absolute gate (-70 LUFS)
-	sum = 0.0
+	sum := 0.0
 	count := 0
 	for _, block := range lm.integrated.blocks {
 		if block >= lm.integrated.absoluteGate {
@@ -463,8 +456,8 @@ func (lm *LUFSMeter) GetIntegratedLUFS() float64 {
 		return -math.Inf(1)
 	}
 	
-	// Apply relative gate (10 dB below ungated)
-	relativeThreshold := ungatedLoudness + lm.integrated.relativeGate
+	// Apply relative gate (10 dB below the absolute-gated loudness)
+	relativeThreshold := 10.0*math.Log10(sum/float64(count)) + lm.integrated.relativeGate
 	sum = 0.0
 	count = 0
 	for _, block := range lm.integrated.blocks {
-- 
2.43.0


From d36dd99c7d7356121a6cd2cb4f38cffc4af6f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 083/101] fix: short-term loudness covers 3 s

---
 pkg/dsp/analysis/meters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/analysis/meters.go b/pkg/dsp/analysis/meters.go
index c522698..c7af048 100644
--- a/pkg/dsp/analysis/meters.go
+++ b/pkg/dsp/analysis/meters.go
@@ -274,7 +274,7 @@ func NewLUFSMeter(sampleRate float64, channels int) *LUFSMeter {
 	lm.shortTerm = &LUFSBlock{
 		blockSize:    shortTermSize,
 		overlap:      shortTermOverlap,
-		blocks:       make([][]float64, 30), // Store 30 blocks for 3s
+		blocks:       make([][]float64, 1), // Each block spans the whole 3s window
 		buffer:       make([]float64, shortTermSize*channels),
 		gatingThresh: -math.Inf(1), // No gating for short-term
 	}
-- 
2.43.0


From da571c668cd0533fad2b98238cbb5b749d4ba748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 084/101] fix: the spectrum's frequency range can include the
 Nyquist bin

---
 pkg/dsp/analysis/spectrum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/analysis/spectrum.go b/pkg/dsp/analysis/spectrum.go
index 27032e4..920aed2 100644
--- a/pkg/dsp/analysis/spectrum.go
+++ b/pkg/dsp/analysis/spectrum.go
@@ -108,8 +108,8 @@ func (sa *SpectrumAnalyzer) updateFrequencyRange() {
 	sa.minBin = int(sa.minFreq / binWidth)
 	sa.maxBin = int(sa.maxFreq/binWidth) + 1
 	
-	if sa.maxBin > sa.fftSize/2 {
-		sa.maxBin = sa.fftSize / 2
+	if sa.maxBin > len(sa.outputBuffer) {
+		sa.maxBin = len(sa.outputBuffer)
 	}
 }
 
-- 
2.43.0


From e8459f06ef578ea9f272c7cb2be878f74a97e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 085/101] fix: take the profiler's percentiles from its samples
 in order

---
 pkg/framework/debug/profiler.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index 81d6d2b..84215ac 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -3,6 +3,7 @@ package debug
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -193,19 +194,25 @@ func (m *Measurement) Percentile(p float64) time.Duration {
 	}
 	
 	// Collect valid samples
-	validSamples := make([]time.Duration, 0, len(m.samples))
-	for i := 0; i < len(m.samples) && i < int(m.count); i++ {
-		if m.samples[i] > 0 {
-			validSamples = append(validSamples, m.samples[i])
-		}
+	n := len(m.samples)
+	if m.count < uint64(n) {
+		n = int(m.count)
 	}
-	
-	if len(validSamples) == 0 {
+	if n == 0 {
 		return 0
 	}
+	validSamples := append([]time.Duration(nil), m.samples[:n]...)
+	sort.Slice(validSamples, func(i, j int) bool {
+		return validSamples[i] < validSamples[j]
+	})
 	
-	// Simple percentile calculation (not fully accurate but fast)
-	index := int(float64(len(validSamples)-1) * p / 100.0)
+	// Simple percentile calculation (no interpolation)
+	if p < 0 {
+		p = 0
+	} else if p > 100 {
+		p = 100
+	}
+	index := int(float64(n-1) * p / 100.0)
 	return validSamples[index]
 }
 
-- 
2.43.0


From aa54c2a9bb1ed7bc7c7e9f5864040be7ade1f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 086/101] fix: measure a buffer's level over its valid samples
 when some are NaN

---
 pkg/framework/debug/audio.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/framework/debug/audio.go b/pkg/framework/debug/audio.go
index 0a3d445..2fcb486 100644
--- a/pkg/framework/debug/audio.go
+++ b/pkg/framework/debug/audio.go
@@ -54,8 +54,9 @@ func (a *AudioAnalyzer) Analyze(buffer []float32) AnalysisResult {
 	
 	var sum, sumSquares, dcSum float64
 	var lastSample float32
+	valid := 0 // samples that are not NaN
 	
-	for i, sample := range buffer {
+	for _, sample := range buffer {
 		// Check for NaN
 		if a.detectNaN && math.IsNaN(float64(sample)) {
 			result.HasNaN = true
@@ -86,17 +87,23 @@ func (a *AudioAnalyzer) Analyze(buffer []float32) AnalysisResult {
 		dcSum += float64(absSample)
 		
 		// Count zero crossings
-		if i > 0 && ((lastSample < 0 && sample >= 0) || (lastSample >= 0 && sample < 0)) {
+		if valid > 0 && ((lastSample < 0 && sample >= 0) || (lastSample >= 0 && sample < 0)) {
 			result.ZeroCrossings++
 		}
 		lastSample = sample
+		valid++
+	}
+	
+	// Without a valid sample there is no level to report
+	if valid == 0 {
+		return result
 	}
 	
 	// Calculate RMS
-	result.RMS = float32(math.Sqrt(sumSquares / float64(len(buffer))))
+	result.RMS = float32(math.Sqrt(sumSquares / float64(valid)))
 	
 	// Calculate DC offset
-	result.DC = float32(sum / float64(len(buffer)))
+	result.DC = float32(sum / float64(valid))
 	
 	// Check if silent
 	if a.detectSilence && result.RMS < a.silenceThreshold {
-- 
2.43.0


From d7d4d7d6dbd78c3f1e7e96112018ebc7113cba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 087/101] fix: report the caller's file and line from the
 package-level log functions

---
 pkg/framework/debug/logger.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/framework/debug/logger.go b/pkg/framework/debug/logger.go
index b6223d2..4f53e1d 100644
--- a/pkg/framework/debug/logger.go
+++ b/pkg/framework/debug/logger.go
@@ -269,27 +269,28 @@ func SetEnabled(enabled bool) {
 
 // Debug logs a debug message using the default logger.
 func Debug(format string, args ...interface{}) {
-	defaultLogger.Debug(format, args...)
+	defaultLogger.log(LogLevelDebug, format, args...)
 }
 
 // Info logs an informational message using the default logger.
 func Info(format string, args ...interface{}) {
-	defaultLogger.Info(format, args...)
+	defaultLogger.log(LogLevelInfo, format, args...)
 }
 
 // Warn logs a warning message using the default logger.
 func Warn(format string, args ...interface{}) {
-	defaultLogger.Warn(format, args...)
+	defaultLogger.log(LogLevelWarn, format, args...)
 }
 
 // Error logs an error message using the default logger.
 func Error(format string, args ...interface{}) {
-	defaultLogger.Error(format, args...)
+	defaultLogger.log(LogLevelError, format, args...)
 }
 
 // Fatal logs a fatal error message using the default logger and panics.
 func Fatal(format string, args ...interface{}) {
-	defaultLogger.Fatal(format, args...)
+	defaultLogger.log(LogLevelFatal, format, args...)
+	panic(fmt.Sprintf(format, args...))
 }
 
 // Conditional logging helpers
@@ -297,20 +298,20 @@ func Fatal(format string, args ...interface{}) {
 // DebugIf logs a debug message if the condition is true.
 func DebugIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Debug(format, args...)
+		defaultLogger.log(LogLevelDebug, format, args...)
 	}
 }
 
 // WarnIf logs a warning message if the condition is true.
 func WarnIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Warn(format, args...)
+		defaultLogger.log(LogLevelWarn, format, args...)
 	}
 }
 
 // ErrorIf logs an error message if the condition is true.
 func ErrorIf(condition bool, format string, args ...interface{}) {
 	if condition {
-		defaultLogger.Error(format, args...)
+		defaultLogger.log(LogLevelError, format, args...)
 	}
 }
\ No newline at end of file
-- 
2.43.0


From de4b1eaff02faff3f743e623954eccf33fdb0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:22 +0000
Subject: [PATCH 088/101] fix: keep at least one sample per profiled section

---
 pkg/framework/debug/profiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/debug/profiler.go b/pkg/framework/debug/profiler.go
index 84215ac..f2dbd1d 100644
--- a/pkg/framework/debug/profiler.go
+++ b/pkg/framework/debug/profiler.go
@@ -34,6 +34,9 @@ var DefaultProfiler = NewProfiler(1000)
 
 // NewProfiler creates a new profiler with the specified sample buffer size.
 func NewProfiler(maxSamples int) *Profiler {
+	if maxSamples < 1 {
+		maxSamples = 1 // the last sample is always kept
+	}
 	p := &Profiler{
 		measurements: make(map[string]*Measurement),
 		maxSamples:   maxSamples,
-- 
2.43.0


From fd690afe671ba1330c2ccfa13f4cc6a43e24d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 089/101] fix: hand a note to the processor once, not again in
 every following block

---
 pkg/plugin/component.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index b634180..8f5f4ca 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -307,6 +307,9 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 	// Reset parameter changes for this processing block
 	c.processCtx.ResetParameterChanges()
 
+	// Events belong to the block they came with
+	c.processCtx.ClearAllEvents()
+
 	// Process input events (MIDI)
 	if processData.inputEvents != nil {
 		c.processInputEvents(processData.inputEvents)
-- 
2.43.0


From 3e599999c43d0a67ee329866597a1d01d44c1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:40 +0000
Subject: [PATCH 090/101] fix: accept more than one bus and more than sixteen
 channels from the host

---
 pkg/plugin/component.go     | 8 ++++----
 pkg/plugin/constants.go     | 7 +++++++
 pkg/plugin/wrapper_audio.go | 4 ++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 8f5f4ca..f9f3965 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -270,11 +270,11 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map input buffers
 	if processData.numInputs > 0 && processData.inputs != nil {
-		inputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.inputs))[:processData.numInputs:processData.numInputs]
+		inputBuses := (*[maxHostBuses]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.inputs))[:processData.numInputs:processData.numInputs]
 		for _, bus := range inputBuses {
 			channelBuffers32 := getChannelBuffers32(&bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := (*[maxHostChannels]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
@@ -288,11 +288,11 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Map output buffers
 	if processData.numOutputs > 0 && processData.outputs != nil {
-		outputBuses := (*[1]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.outputs))[:processData.numOutputs:processData.numOutputs]
+		outputBuses := (*[maxHostBuses]C.struct_Steinberg_Vst_AudioBusBuffers)(unsafe.Pointer(processData.outputs))[:processData.numOutputs:processData.numOutputs]
 		for _, bus := range outputBuses {
 			channelBuffers32 := getChannelBuffers32(&bus)
 			if bus.numChannels > 0 && channelBuffers32 != nil {
-				channels := (*[16]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
+				channels := (*[maxHostChannels]*float32)(unsafe.Pointer(channelBuffers32))[:bus.numChannels:bus.numChannels]
 				for _, channel := range channels {
 					if channel != nil {
 						// Create slice from pointer without allocation
diff --git a/pkg/plugin/constants.go b/pkg/plugin/constants.go
index b9c87c0..d52460c 100644
--- a/pkg/plugin/constants.go
+++ b/pkg/plugin/constants.go
@@ -6,3 +6,10 @@ const (
 	ParamIDBypass = 1
 	ParamIDMix    = 2
 )
+
+// Bounds of the array types that host memory is viewed through. They only
+// have to exceed what a host hands over and fit a 32-bit address space.
+const (
+	maxHostBuses    = 1 << 16
+	maxHostChannels = 1 << 16
+)
diff --git a/pkg/plugin/wrapper_audio.go b/pkg/plugin/wrapper_audio.go
index 7ac10ed..02b183e 100644
--- a/pkg/plugin/wrapper_audio.go
+++ b/pkg/plugin/wrapper_audio.go
@@ -21,12 +21,12 @@ func GoAudioSetBusArrangements(componentPtr unsafe.Pointer, inputs unsafe.Pointe
 	// Convert arrangements
 	var inputArrs []int64
 	if numIns > 0 && inputs != nil {
-		inputArrs = (*[16]int64)(inputs)[:numIns:numIns]
+		inputArrs = (*[maxHostBuses]int64)(inputs)[:numIns:numIns]
 	}
 
 	var outputArrs []int64
 	if numOuts > 0 && outputs != nil {
-		outputArrs = (*[16]int64)(outputs)[:numOuts:numOuts]
+		outputArrs = (*[maxHostBuses]int64)(outputs)[:numOuts:numOuts]
 	}
 
 	err := wrapper.component.SetBusArrangements(inputArrs, outputArrs)
-- 
2.43.0


From 378c9adab8dda757028ea0e97fdf7dd0bf6fe9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 091/101] fix: no printing from automation and parameter
 changes

---
 pkg/plugin/component.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index f9f3965..2e9ce46 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -488,9 +488,6 @@ func (c *componentImpl) GetParamNormalized(id uint32) float64 {
 
 func (c *componentImpl) SetParamNormalized(id uint32, value float64) error {
 	if p := c.processor.GetParameters().Get(id); p != nil {
-		// Debug parameter changes
-		fmt.Printf("[PARAM_CHANGE] SetParamNormalized: id=%d, value=%.3f, plain=%.1f\n",
-			id, value, p.Min+value*(p.Max-p.Min))
 		p.SetValue(value)
 		return nil
 	}
@@ -574,12 +571,6 @@ func (c *componentImpl) processSampleAccurate() {
 
 		// Apply the parameter change
 		c.processCtx.ApplyParameterChange(change)
-
-		// Debug output
-		if p := c.processor.GetParameters().Get(change.ParamID); p != nil {
-			fmt.Printf("[SAMPLE_ACCURATE] Applied param %d change at sample %d: value=%.6f, plain=%.1f\n",
-				change.ParamID, change.SampleOffset, change.Value, p.GetPlainValue())
-		}
 	}
 
 	// Process final chunk if there are samples remaining
-- 
2.43.0


From ffea1c05c506bb1e9b7b3a910b2df4bfe2ae957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 092/101] fix: split a block at automation without allocating
 new buffer lists each time

---
 pkg/plugin/component.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 2e9ce46..809e35e 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -27,6 +27,10 @@ type componentImpl struct {
 	processing   bool
 	mu           sync.RWMutex
 	wrapper      *componentWrapper // Reference to wrapper for notifications
+
+	// The whole block's buffers while it is processed in chunks
+	blockInput  [][]float32
+	blockOutput [][]float32
 }
 
 // newComponent creates a new component implementation
@@ -527,9 +531,10 @@ func (c *componentImpl) processSampleAccurate() {
 	numSamples := c.processCtx.NumSamples()
 	lastOffset := 0
 
-	// Store original buffers
-	origInput := c.processCtx.Input
-	origOutput := c.processCtx.Output
+	// Store original buffers, outside the slices the chunks are built in
+	origInput := append(c.blockInput[:0], c.processCtx.Input...)
+	origOutput := append(c.blockOutput[:0], c.processCtx.Output...)
+	c.blockInput, c.blockOutput = origInput, origOutput
 
 	// Process each chunk between parameter changes
 	for _, change := range changes {
@@ -538,8 +543,8 @@ func (c *componentImpl) processSampleAccurate() {
 			chunkSize := change.SampleOffset - lastOffset
 
 			// Temporarily update context buffers to point to sub-slices (no allocation)
-			c.processCtx.Input = nil
-			c.processCtx.Output = nil
+			c.processCtx.Input = c.processCtx.Input[:0]
+			c.processCtx.Output = c.processCtx.Output[:0]
 
 			// Set up input sub-slices
 			for ch := 0; ch < len(origInput); ch++ {
@@ -576,8 +581,8 @@ func (c *componentImpl) processSampleAccurate() {
 	// Process final chunk if there are samples remaining
 	if lastOffset < numSamples {
 		// Temporarily update context buffers for final chunk
-		c.processCtx.Input = nil
-		c.processCtx.Output = nil
+		c.processCtx.Input = c.processCtx.Input[:0]
+		c.processCtx.Output = c.processCtx.Output[:0]
 
 		// Set up input sub-slices for final chunk
 		for ch := 0; ch < len(origInput); ch++ {
@@ -598,6 +603,6 @@ func (c *componentImpl) processSampleAccurate() {
 	}
 
 	// Restore original buffers
-	c.processCtx.Input = origInput
-	c.processCtx.Output = origOutput
+	c.processCtx.Input = append(c.processCtx.Input[:0], origInput...)
+	c.processCtx.Output = append(c.processCtx.Output[:0], origOutput...)
 }
-- 
2.43.0


From 65f057b08494a11637f56e0edd11d9b87fafd695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 093/101] fix: with automation in a block, hand each note to
 the chunk it falls into

---
 pkg/plugin/component.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 809e35e..941ec9d 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -316,7 +316,7 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 
 	// Process input events (MIDI)
 	if processData.inputEvents != nil {
-		c.processInputEvents(processData.inputEvents)
+		c.processInputEvents(processData.inputEvents, 0, int32(numSamples))
 	}
 
 	// Collect parameter changes for sample-accurate automation
@@ -356,7 +356,7 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processCtx.SortParameterChanges()
 
 		// Process audio in chunks between parameter changes
-		c.processSampleAccurate()
+		c.processSampleAccurate(processData.inputEvents)
 	} else {
 		// No parameter changes - process entire block
 		c.processor.ProcessAudio(c.processCtx)
@@ -369,8 +369,9 @@ func (c *componentImpl) GetTailSamples() uint32 {
 	return uint32(c.processor.GetTailSamples())
 }
 
-// processInputEvents processes MIDI events from the host
-func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEventList) {
+// processInputEvents processes the MIDI events from the host that fall into
+// samples start to end of the block, counting their offsets from start
+func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEventList, start, end int32) {
 	if eventList == nil {
 		return
 	}
@@ -385,13 +386,16 @@ func (c *componentImpl) processInputEvents(eventList *C.struct_Steinberg_Vst_IEv
 	for i := C.int32_t(0); i < eventCount; i++ {
 		var event C.struct_Steinberg_Vst_Event
 		if C.getEvent(unsafe.Pointer(eventList), i, &event) == 0 { // kResultOk
-			c.processSingleEvent(&event)
+			if offset := int32(event.sampleOffset); offset >= start && offset < end {
+				c.processSingleEvent(&event, start)
+			}
 		}
 	}
 }
 
-// processSingleEvent converts a VST3 event to our MIDI event format
-func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event) {
+// processSingleEvent converts a VST3 event to our MIDI event format, with its
+// offset counted from start
+func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event, start int32) {
 	// Use helper function to get event type
 	eventType := C.getEventType(event)
 	
@@ -402,7 +406,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 		c.processCtx.AddInputEvent(midi.NoteOnEvent{
 			BaseEvent: midi.BaseEvent{
 				EventChannel: uint8(noteOn.channel),
-				Offset:       int32(event.sampleOffset),
+				Offset:       int32(event.sampleOffset) - start,
 			},
 			NoteNumber: uint8(noteOn.pitch),
 			Velocity:   uint8(noteOn.velocity * 127), // VST3 uses 0-1, MIDI uses 0-127
@@ -414,7 +418,7 @@ func (c *componentImpl) processSingleEvent(event *C.struct_Steinberg_Vst_Event)
 		c.processCtx.AddInputEvent(midi.NoteOffEvent{
 			BaseEvent: midi.BaseEvent{
 				EventChannel: uint8(noteOff.channel),
-				Offset:       int32(event.sampleOffset),
+				Offset:       int32(event.sampleOffset) - start,
 			},
 			NoteNumber: uint8(noteOff.pitch),
 			Velocity:   uint8(noteOff.velocity * 127),
@@ -525,8 +529,9 @@ func (c *componentImpl) SetParamNormalizedWithNotification(id uint32, value floa
 	return vst3.ErrInvalidArgument
 }
 
-// processSampleAccurate processes audio with sample-accurate parameter automation
-func (c *componentImpl) processSampleAccurate() {
+// processSampleAccurate processes audio with sample-accurate parameter automation.
+// Each chunk gets the events that fall into it.
+func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_IEventList) {
 	changes := c.processCtx.GetParameterChanges()
 	numSamples := c.processCtx.NumSamples()
 	lastOffset := 0
@@ -569,6 +574,8 @@ func (c *componentImpl) processSampleAccurate() {
 			}
 
 			// Process this chunk
+			c.processCtx.ClearInputEvents()
+			c.processInputEvents(eventList, int32(lastOffset), int32(change.SampleOffset))
 			c.processor.ProcessAudio(c.processCtx)
 
 			lastOffset = change.SampleOffset
@@ -599,6 +606,8 @@ func (c *componentImpl) processSampleAccurate() {
 		}
 
 		// Process final chunk
+		c.processCtx.ClearInputEvents()
+		c.processInputEvents(eventList, int32(lastOffset), int32(numSamples))
 		c.processor.ProcessAudio(c.processCtx)
 	}
 
-- 
2.43.0


From 0a66f7eb009e35caecd099091f55f3e82f78be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 094/101] fix: read and write a host stream to the end when it
 moves less than asked for

---
 pkg/vst3/stream.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 98ce451..9fe4cf3 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -40,32 +40,45 @@ func NewStreamWrapper(streamPtr unsafe.Pointer) *StreamWrapper {
 	}
 }
 
-// Read reads data from the stream
+// Read reads data from the stream until the buffer is full or the stream ends
 func (s *StreamWrapper) Read(buffer []byte) (int32, error) {
 	if len(buffer) == 0 {
 		return 0, nil
 	}
 
-	var numBytesRead C.Steinberg_int32
-	result := C.stream_read(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesRead)
-	if result != 0 {
-		return 0, ErrNotImplemented
+	total := 0
+	for total < len(buffer) {
+		// The host may hand out less than was asked for
+		var numBytesRead C.Steinberg_int32
+		result := C.stream_read(s.stream, unsafe.Pointer(&buffer[total]), C.Steinberg_int32(len(buffer)-total), &numBytesRead)
+		if result != 0 && total == 0 {
+			return 0, ErrNotImplemented
+		}
+		if result != 0 || numBytesRead <= 0 {
+			break
+		}
+		total += int(numBytesRead)
 	}
-	return int32(numBytesRead), nil
+	return int32(total), nil
 }
 
-// Write writes data to the stream
+// Write writes all of the data to the stream
 func (s *StreamWrapper) Write(buffer []byte) (int32, error) {
 	if len(buffer) == 0 {
 		return 0, nil
 	}
 
-	var numBytesWritten C.Steinberg_int32
-	result := C.stream_write(s.stream, unsafe.Pointer(&buffer[0]), C.Steinberg_int32(len(buffer)), &numBytesWritten)
-	if result != 0 {
-		return 0, ErrNotImplemented
+	total := 0
+	for total < len(buffer) {
+		// The host may take less than it was offered
+		var numBytesWritten C.Steinberg_int32
+		result := C.stream_write(s.stream, unsafe.Pointer(&buffer[total]), C.Steinberg_int32(len(buffer)-total), &numBytesWritten)
+		if result != 0 || numBytesWritten <= 0 {
+			return int32(total), ErrNotImplemented
+		}
+		total += int(numBytesWritten)
 	}
-	return int32(numBytesWritten), nil
+	return int32(total), nil
 }
 
 // WriteInt32 writes an int32 to the stream
-- 
2.43.0


From 525633fcdf2aaeed3a3dc4959f1fe84acf9e5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 095/101] fix: hand names and units to the host as UTF-16,
 whole characters only

---
 pkg/plugin/constants.go          |  1 +
 pkg/plugin/helpers.go            | 50 +++++++++++++-------------------
 pkg/plugin/wrapper.go            |  9 +-----
 pkg/plugin/wrapper_controller.go | 27 ++---------------
 4 files changed, 25 insertions(+), 62 deletions(-)

diff --git a/pkg/plugin/constants.go b/pkg/plugin/constants.go
index d52460c..7715ca9 100644
--- a/pkg/plugin/constants.go
+++ b/pkg/plugin/constants.go
@@ -12,4 +12,5 @@ const (
 const (
 	maxHostBuses    = 1 << 16
 	maxHostChannels = 1 << 16
+	maxHostString   = 1 << 16
 )
diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 142d277..7d4bada 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -8,7 +8,10 @@ package plugin
 //     return bus->Steinberg_Vst_AudioBusBuffers_channelBuffers32;
 // }
 import "C"
-import "unsafe"
+import (
+	"unicode/utf16"
+	"unsafe"
+)
 
 // getChannelBuffers32 extracts the 32-bit channel buffers from an audio bus
 func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float {
@@ -17,22 +20,21 @@ func getChannelBuffers32(bus *C.struct_Steinberg_Vst_AudioBusBuffers) **C.float
 
 // copyStringToTChar copies a Go string to a VST3 TChar (UTF16) buffer
 func copyStringToTChar(src string, dst *C.Steinberg_Vst_TChar, maxLen int) {
-	// Convert to runes for proper Unicode handling
-	runes := []rune(src)
-	n := len(runes)
-	if n > maxLen-1 {
-		n = maxLen - 1
+	buf := (*[maxHostString]C.Steinberg_char16)(unsafe.Pointer(dst))[:maxLen:maxLen]
+	units := utf16.Encode([]rune(src))
+	if len(units) > maxLen-1 {
+		units = units[:maxLen-1]
+		// Never keep half of a surrogate pair
+		if last := units[len(units)-1]; last >= 0xD800 && last < 0xDC00 {
+			units = units[:len(units)-1]
+		}
 	}
-
-	// Copy runes as UTF16
-	for i := 0; i < n; i++ {
-		*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(dst)) + uintptr(i*2))) = C.Steinberg_char16(runes[i])
+	for i, unit := range units {
+		buf[i] = C.Steinberg_char16(unit)
 	}
 
 	// Null terminate
-	*(*C.Steinberg_char16)(unsafe.Pointer(
-		uintptr(unsafe.Pointer(dst)) + uintptr(n*2))) = 0
+	buf[len(units)] = 0
 }
 
 // stringFromTChar converts a VST3 TChar (UTF16) buffer to a Go string
@@ -41,23 +43,11 @@ func stringFromTChar(src *C.Steinberg_Vst_TChar) string {
 		return ""
 	}
 
-	// Count length
-	length := 0
-	for {
-		ch := *(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(length*2)))
-		if ch == 0 {
-			break
-		}
-		length++
-	}
-
-	// Convert to runes
-	runes := make([]rune, length)
-	for i := 0; i < length; i++ {
-		runes[i] = rune(*(*C.Steinberg_char16)(unsafe.Pointer(
-			uintptr(unsafe.Pointer(src)) + uintptr(i*2))))
+	buf := (*[maxHostString]C.Steinberg_char16)(unsafe.Pointer(src))
+	var units []uint16
+	for i := 0; buf[i] != 0; i++ {
+		units = append(units, uint16(buf[i]))
 	}
 
-	return string(runes)
+	return string(utf16.Decode(units))
 }
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index dc100d9..908f0b3 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -353,14 +353,7 @@ func GoComponentGetBusInfo(componentPtr unsafe.Pointer, mediaType, dir, index C.
 	cBus.channelCount = C.Steinberg_int32(info.ChannelCount)
 
 	// Copy name
-	nameBytes := []byte(info.Name)
-	if len(nameBytes) > 127 {
-		nameBytes = nameBytes[:127]
-	}
-	for i, b := range nameBytes {
-		cBus.name[i] = C.Steinberg_char16(b)
-	}
-	cBus.name[len(nameBytes)] = 0
+	copyStringToTChar(info.Name, (*C.Steinberg_Vst_TChar)(unsafe.Pointer(&cBus.name[0])), len(cBus.name))
 
 	cBus.busType = C.Steinberg_Vst_BusType(info.BusType)
 	cBus.flags = C.Steinberg_uint32(info.Flags)
diff --git a/pkg/plugin/wrapper_controller.go b/pkg/plugin/wrapper_controller.go
index 0f5f581..d76d46b 100644
--- a/pkg/plugin/wrapper_controller.go
+++ b/pkg/plugin/wrapper_controller.go
@@ -56,34 +56,13 @@ func GoEditControllerGetParameterInfo(componentPtr unsafe.Pointer, paramIndex C.
 	cInfo.id = C.Steinberg_Vst_ParamID(paramInfo.ID)
 
 	// Copy title
-	titleBytes := []byte(paramInfo.Title)
-	if len(titleBytes) > 127 {
-		titleBytes = titleBytes[:127]
-	}
-	for i, b := range titleBytes {
-		cInfo.title[i] = C.Steinberg_char16(b)
-	}
-	cInfo.title[len(titleBytes)] = 0
+	copyStringToTChar(paramInfo.Title, (*C.Steinberg_Vst_TChar)(unsafe.Pointer(&cInfo.title[0])), len(cInfo.title))
 
 	// Copy short title
-	shortTitleBytes := []byte(paramInfo.ShortTitle)
-	if len(shortTitleBytes) > 127 {
-		shortTitleBytes = shortTitleBytes[:127]
-	}
-	for i, b := range shortTitleBytes {
-		cInfo.shortTitle[i] = C.Steinberg_char16(b)
-	}
-	cInfo.shortTitle[len(shortTitleBytes)] = 0
+	copyStringToTChar(paramInfo.ShortTitle, (*C.Steinberg_Vst_TChar)(unsafe.Pointer(&cInfo.shortTitle[0])), len(cInfo.shortTitle))
 
 	// Copy units
-	unitsBytes := []byte(paramInfo.Units)
-	if len(unitsBytes) > 127 {
-		unitsBytes = unitsBytes[:127]
-	}
-	for i, b := range unitsBytes {
-		cInfo.units[i] = C.Steinberg_char16(b)
-	}
-	cInfo.units[len(unitsBytes)] = 0
+	copyStringToTChar(paramInfo.Units, (*C.Steinberg_Vst_TChar)(unsafe.Pointer(&cInfo.units[0])), len(cInfo.units))
 
 	cInfo.stepCount = C.Steinberg_int32(paramInfo.StepCount)
 	cInfo.defaultNormalizedValue = C.Steinberg_Vst_ParamValue(paramInfo.DefaultValue)
-- 
2.43.0


From 83891a7ad14e417c608e052eb474acaccf55f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:12 +0000
Subject: [PATCH 096/101] fix: bound the factory's text fields and copy them
 without leaking

---
 pkg/plugin/constants.go |  9 +++++++++
 pkg/plugin/helpers.go   | 18 ++++++++++++++++++
 pkg/plugin/wrapper.go   | 10 +++++-----
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/pkg/plugin/constants.go b/pkg/plugin/constants.go
index 7715ca9..fdbc387 100644
--- a/pkg/plugin/constants.go
+++ b/pkg/plugin/constants.go
@@ -14,3 +14,12 @@ const (
 	maxHostChannels = 1 << 16
 	maxHostString   = 1 << 16
 )
+
+// Sizes of the text fields of PFactoryInfo and PClassInfo
+const (
+	factoryNameSize   = 64
+	factoryURLSize    = 256
+	factoryEmailSize  = 128
+	classCategorySize = 32
+	classNameSize     = 64
+)
diff --git a/pkg/plugin/helpers.go b/pkg/plugin/helpers.go
index 7d4bada..85522a5 100644
--- a/pkg/plugin/helpers.go
+++ b/pkg/plugin/helpers.go
@@ -10,6 +10,7 @@ package plugin
 import "C"
 import (
 	"unicode/utf16"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -51,3 +52,20 @@ func stringFromTChar(src *C.Steinberg_Vst_TChar) string {
 
 	return string(utf16.Decode(units))
 }
+
+// copyCString copies a Go string to a C text field of the given size
+func copyCString(src string, dst *C.char, size int) {
+	buf := (*[maxHostString]C.char)(unsafe.Pointer(dst))[:size:size]
+	n := len(src)
+	if n > size-1 {
+		n = size - 1
+		// Never keep part of a character
+		for n > 0 && !utf8.RuneStart(src[n]) {
+			n--
+		}
+	}
+	for i := 0; i < n; i++ {
+		buf[i] = C.char(src[i])
+	}
+	buf[n] = 0
+}
diff --git a/pkg/plugin/wrapper.go b/pkg/plugin/wrapper.go
index 908f0b3..e4fc62b 100644
--- a/pkg/plugin/wrapper.go
+++ b/pkg/plugin/wrapper.go
@@ -172,9 +172,9 @@ func (w *componentWrapper) notifyParamEndEdit(paramID uint32) {
 
 //export GoGetFactoryInfo
 func GoGetFactoryInfo(vendor, url, email *C.char, flags *C.int32_t) {
-	C.strcpy(vendor, C.CString(globalFactoryInfo.Vendor))
-	C.strcpy(url, C.CString(globalFactoryInfo.URL))
-	C.strcpy(email, C.CString(globalFactoryInfo.Email))
+	copyCString(globalFactoryInfo.Vendor, vendor, factoryNameSize)
+	copyCString(globalFactoryInfo.URL, url, factoryURLSize)
+	copyCString(globalFactoryInfo.Email, email, factoryEmailSize)
 	*flags = C.Steinberg_PFactoryInfo_FactoryFlags_kUnicode
 }
 
@@ -202,8 +202,8 @@ func GoGetClassInfo(index C.int32_t, cid *C.char, cardinality *C.int32_t, catego
 	*cardinality = C.Steinberg_PClassInfo_ClassCardinality_kManyInstances
 
 	// Set category and name
-	C.strcpy(category, C.CString("Audio Module Class"))
-	C.strcpy(name, C.CString(info.Name))
+	copyCString("Audio Module Class", category, classCategorySize)
+	copyCString(info.Name, name, classNameSize)
 }
 
 //export GoCreateInstance
-- 
2.43.0


From e80c456827d4d256c20e6fe3aa846fc7eaa23483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 097/101] fix: a state stream that ends before its size is an
 error, not a shorter state

---
 pkg/vst3/stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 9fe4cf3..f7cbc58 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -200,8 +200,11 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n != remaining {
+		return nil, ErrNotImplemented
+	}
 
-	return buffer[:n], nil
+	return buffer, nil
 }
 
 // readAllChunked reads data in chunks when seeking is not supported
-- 
2.43.0


From 11726762829e6ca82aa920e45e243cacfe4c6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 098/101] fix: a stream that cannot go back from its end is an
 error, not an empty state

---
 pkg/vst3/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index f7cbc58..3dfb201 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -191,7 +191,7 @@ func (s *StreamWrapper) ReadAll() ([]byte, error) {
 	var newPos C.int64_t
 	result = C.stream_seek(s.stream, currentPos, 0, &newPos) // SEEK_SET = 0
 	if result != 0 {
-		return s.readAllChunked()
+		return nil, ErrNotImplemented
 	}
 
 	// Read all remaining data
-- 
2.43.0


From d1d03534cb648e19321f25f398e96761c606ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 099/101] fix: a negative string length in a stream is an
 error, not a panic

---
 pkg/vst3/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/vst3/stream.go b/pkg/vst3/stream.go
index 3dfb201..b180dc9 100644
--- a/pkg/vst3/stream.go
+++ b/pkg/vst3/stream.go
@@ -145,6 +145,9 @@ func (s *StreamWrapper) ReadString() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if length < 0 {
+		return "", ErrNotImplemented
+	}
 	if length == 0 {
 		return "", nil
 	}
-- 
2.43.0


From fc320b9b9f1f3befb6220da7a43eaeec96c4b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 100/101] fix: notes behind the last automation point reach a
 plugin without audio buses

---
 pkg/plugin/component.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/plugin/component.go b/pkg/plugin/component.go
index 941ec9d..3dc35ed 100644
--- a/pkg/plugin/component.go
+++ b/pkg/plugin/component.go
@@ -356,7 +356,7 @@ func (c *componentImpl) Process(data unsafe.Pointer) error {
 		c.processCtx.SortParameterChanges()
 
 		// Process audio in chunks between parameter changes
-		c.processSampleAccurate(processData.inputEvents)
+		c.processSampleAccurate(processData.inputEvents, numSamples)
 	} else {
 		// No parameter changes - process entire block
 		c.processor.ProcessAudio(c.processCtx)
@@ -531,9 +531,8 @@ func (c *componentImpl) SetParamNormalizedWithNotification(id uint32, value floa
 
 // processSampleAccurate processes audio with sample-accurate parameter automation.
 // Each chunk gets the events that fall into it.
-func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_IEventList) {
+func (c *componentImpl) processSampleAccurate(eventList *C.struct_Steinberg_Vst_IEventList, numSamples int) {
 	changes := c.processCtx.GetParameterChanges()
-	numSamples := c.processCtx.NumSamples()
 	lastOffset := 0
 
 	// Store original buffers, outside the slices the chunks are built in
-- 
2.43.0


From ee6fe033969960f47db40c28c5bfb85147cc4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 101/101] fix: a plugin without audio buses gets its input
 events

---
 pkg/framework/process/context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index bb0c482..4d6853c 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -295,7 +295,12 @@ func (c *Context) GetInputEvents(startSample, endSample int32) []midi.Event {
 
 // GetAllInputEvents returns all input events for the current block
 func (c *Context) GetAllInputEvents() []midi.Event {
-	return c.eventBuffer.GetInputEvents(0, int32(c.NumSamples()))
+	end := int32(c.NumSamples())
+	if end == 0 {
+		// Without audio buses the block has no length to go by
+		end = math.MaxInt32
+	}
+	return c.eventBuffer.GetInputEvents(0, end)
 }
 
 // GetOutputEvents returns all output events generated during processing
-- 
2.43.0

