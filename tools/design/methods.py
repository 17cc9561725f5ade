# id -> (decision procedure and oracle, bounds)
EQ = "Program equations"
M = {
"C01": ("The compiler's own escape report (`go build -gcflags=-m=2` into a scratch cache) gives every heap site; the call graph gives every function an audio-thread operation (any Process*/Next/Apply… method by its signature: takes or returns samples, or is named in a frozen list) can reach. A site in both is a violation, as are append, map insertion, string building, `go`, and calls to library packages outside a list of non-allocating ones. Kept buffers that are remade only when too small are recognised from the SSA guard (`if cap/len < n`).",
        "every call, every branch; trusts the escape report and the library list"),
"C02": ("Effect analysis: which functions may block (channel operations, select, goroutine start, locks, file/console/time-waiting library calls), propagated up the call graph. Oracle: the frozen lists in `checks_rt.go` of library packages that do not block and of the short locks the audio thread may take.",
        "every call and branch"),
"C03": ("Every field that is ever the operand of a `sync/atomic` call must be so everywhere once the object is shared; a `Load` whose value flows into a `Store` of the same cell needs a common lock (lockset) or a compare-and-swap; no copying of structs that hold such fields.",
        "all schedules, since the discipline is schedule-free; configuration before registration is outside"),
"C04": ("Lockset analysis over access paths. Which data a mutex guards is inferred: the mutable fields of the struct that embeds it, and what they reach. Every access from every exported operation needs the lock (write lock for writes), no reference to guarded mutable data is returned, and one operation takes the lock once, so that check and act are not split.",
        "all paths, both build-tag variants of the debug package"),
"C05": ("Typestate of every lock along every path of the SSA with deferred calls replayed at returns; call summaries carry locks taken and released, so re-entry, callbacks under a lock and lock order are found through calls.",
        "all paths"),
"C06": (EQ+" (round trips, step snapping, setters and builders) and interval evaluation with NaN flag for `0 ≤ value ≤ 1` from inputs that include NaN and infinities, using inferred field invariants.",
        "all values and ranges"),
"C07": (EQ+" over a symbolic heap with maps: what is read after a history of additions must be what a direct statement says, for equal and unequal ids and names (case split on the comparisons).",
        "arbitrary or fresh registry; ids below 10^6 in fresh histories"),
"C08": (EQ+": inverse, endpoint, symmetry, agreement of two forms, and direct definitions.", "all arguments, over the reals; buffers of any length"),
"C09": (EQ+" over a modelled byte stream (encoding/binary, bytes.Buffer, io.ReadFull by their definitions), including streams cut at every length, each header byte changed, writers failing at each point and readers of one byte at a time.", "states of up to two parameters"),
"C10": (EQ+" over a domain of texts (constants, number displays with their decimals, concatenations, upper/lower case, trimming, prefixes): parse(format(v)) must be the value shown.", "all values of fourteen parameter kinds; numbers finite"),
"C11": (EQ+": the impulse response of each design with symbolic frequency, Q and gain against the design's textbook formulas; four samples fix the five coefficients of a section.", "all rates, frequencies, Qs, gains; first four samples"),
"C12": (EQ+" over symbolic events of all kinds; `sort.SliceStable`/`sort.Search` replaced by their definitions on up to three events.", "histories of up to three events"),
"C13": (EQ+": ramps against their definition, retargeting at every stage, changes of a block against the stable order by offset.", "ramps of one and two steps, up to three changes"),
"C14": (EQ+": delay lines and combs against explicit recurrences, reverbs against the network of lines written out from their published structure.", "small concrete lengths over several turns, symbolic samples and gains"),
"C15": (EQ+" of waves, stages and generators against definitions; interval evaluation for ranges (`Rng_*`).", "representative rates over several turns, symbolic levels and times"),
"C16": (EQ+" against the static curves in dB and the state machines of gate, expander and limiter; up to 17 samples.", "all thresholds, ratios, knees and times of single steps"),
"C17": ("`Reset` is evaluated over an object in an arbitrary state; every cell that processing writes and that can influence a later result (liveness and dependence analysis over the value graphs, with length classes so that a loop over one buffer is known to cover another) must be overwritten in whole by a state-independent value, and on a new object `Reset` must change nothing. Calls to unknown processors must be delegated.", "all histories, lengths, channel and voice counts"),
"C18": ("For every exported setter of every constructible type: set twice = set last (`again`), every pair in both orders (`order`), every argument reaches a cell that processing reads (`effect`), a joint setter replaces single ones (`overwrite`); value graphs of the whole object compared.", "all arguments, all pairs, all constructors"),
"C19": ("Write and retention effects of every exported operation as access paths, against a frozen table of which parameters are outputs.", "every argument"),
"C20": ("No write to package-level variables outside init, no package-level mutable object stored into an instance, no object stored in two places by a constructor.", "all functions"),
"C21": (EQ+" of curves, holds and histories, per channel.", "all samples and most settings; histories up to eight samples"),
"C22": (EQ+" of tremolo, ring modulator, chorus, flanger and phaser against gain or delay written out sample by sample.", "representative dyadic rates and delays, symbolic samples, mixes, feedbacks, depths"),
"C23": (EQ+": the FFT against the DFT sum, windows against their cosine sums, correlation, balance, spectrum averaging, scopes and meters against their definitions.", "FFTs up to 8 points, histories that fill every window and go round once"),
"C24": (EQ+" over symbolic bus lists.", "up to nine buses"),
"C25": (EQ+" with processors that are abstract objects with symbolic gain and memory.", "chains of up to four, parallel chains of up to three branches, any contents"),
"C26": (EQ+": hand-written scenarios and over a thousand generated histories (`tools/refgen/c26.py`), each against a small reference allocator.", "one to three voices, up to six events, symbolic velocities and ages"),
"C27": (EQ+": block form against the loop of single steps, over buffers of any length; loops matched by partition refinement.", "all settings, states, contents, lengths"),
"C28": ("Sources of non-determinism (clock, global random, OS, goroutine, select, pointer-to-integer, map order) propagated up the call graph; `SetSeed` must overwrite all generator state.", "everything outside the debug packages"),
"C29": (EQ+": K-weighting by its formulas, channel weights, block gating (absolute −70, relative −10 LU), momentary/short-term windows, true-peak phases.", "low sample rates so that blocks are a few samples; up to six channels"),
"C30": ("A ranking function for every loop of every function from the recurrences of the value graph (a bounded quantity that falls by at least one), where needed with inferred field invariants; cycles in the call graph; no channel waits.", "all loops; sizes below 10^9, sample rates 1 kHz – 1 MHz where invariants are used"),
"C31": (EQ+" (`tools/refgen/c31.py`): the id as MD5 with RFC 4122 version and variant bits, the base processor's registry, buses and callbacks for each subset of callbacks.", "all strings and callback results"),
"C32": (EQ+" over symbolic samples and clock readings, and a frame count along every call path from a log function to `runtime.Caller`.", "buffers up to 4 samples, rings of 1 to 4, up to 8 timings"),
"C33": (EQ+" over the host interface, with a stand-in for the VST3 C header and Go models of the C calls (what the host's queues, event lists and streams answer); dominance rules on the SSA of every callback (*guard*: a handle's component is used only past its nil test; *status*: no path on which a call reported an error returns 0), of every view of host memory (*view*), and reachability from `Process` (*quiet*).", "one or two buses, blocks up to 8 samples, two queues of up to three points, three notes; streams of 3 bytes"),
"C35": (EQ+" over symbolic buffers and times.", "up to three channels and four buses"),
}
