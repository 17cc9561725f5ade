package main

import (
	"strings"
)

// ruleFam is a family of equations that are decided by rule: the first word
// of an equation's name is its rule.
type ruleFam struct {
	id, pat string
	opts    eqOpts
	rules   []famRule
}

type famRule struct {
	name, text string
	min        int
}

func init() {
	for _, f := range families {
		register(f.id, "program equations over the exported interface, decided by value numbering of whole functions", func(c *Ctx) {
			f.check(c)
			if f.id == "C32" {
				checkFrames(c)
			}
		})
	}
}

func (f ruleFam) check(c *Ctx) {
	text := map[string]string{}
	for _, r := range f.rules {
		c.Rule(r.name, r.text, r.min)
		text[r.name] = r.text
	}
	decideEqs(c, f.pat, f.opts, func(n string) (string, string) {
		r, _, _ := strings.Cut(n, "_")
		if r == "Rng" {
			r = "range"
		}
		if text[r] == "" {
			r = f.rules[0].name
		}
		return r, text[r]
	})
}

var families = []ruleFam{
	{"C06", "c06", eqOpts{peel: 4}, []famRule{
		{"clamp", "a value set is the value read, kept to 0..1, and nothing else changes", 3},
		{"plain", "plain values are the linear image of normalized ones, kept to the range", 5},
		{"inverse", "Normalize and Denormalize undo each other within the range", 2},
		{"pure", "conversions change nothing", 1},
		{"text", "display text goes through the formatter and the range", 4},
		{"build", "a built parameter has the range, flags and default it was given", 11},
		{"range", "whatever is set, NaN included, the normalized value stays within 0..1", 4},
	}},
	{"C07", "c07", eqOpts{peel: 4, deep: true}, []famRule{
		{"add", "what is added is found by id, by position and in order; a duplicate changes nothing", 4},
		{"index", "outside the positions there is nothing", 1},
		{"all", "All lists what the positions hold", 2},
		{"auto", "automatic ids are unique, and names, ids and positions agree", 10},
	}},
	{"C12", "c12", eqOpts{peel: 4, deep: true}, []famRule{
		{"order", "events come out in time order, those of one time in the order they were added", 6},
		{"range", "a range gives exactly the events from its start up to, not including, its end", 4},
		{"remove", "removing and clearing take away what they say and nothing else", 4},
		{"own", "the lists handed in and out are the caller's own", 3},
		{"buffer", "input and output events are kept apart", 6},
		{"shift", "shifting moves every kind of event and changes nothing else", 11},
		{"event", "an event reports its own kind, channel and time", 11},
	}},
	{"C13", "c13", eqOpts{peel: 4}, []famRule{
		{"hold", "a smoother that is not moving stays where it is", 3},
		{"ramp", "a ramp takes the way its kind defines, and arrives", 9},
		{"param", "a smoothed parameter follows its parameter", 7},
		{"set", "smoothers of several parameters are found by id", 3},
		{"pole", "a one-pole parameter closes in on its target by its time constant", 4},
		{"auto", "automation of a block is kept whole, in time order, and applied to its parameter", 6},
	}},
	{"C24", "c24", eqOpts{peel: 10}, []famRule{
		{"list", "the buses of a kind and direction are listed in the order they were added", 5},
		{"active", "switching a bus switches that bus only, and active channels count the buses that are on", 4},
		{"side", "the sidechain is the first auxiliary audio input", 2},
		{"build", "a configuration is built exactly when it has a main output and usable channel counts", 5},
		{"make", "a named layout is the bus with its number of channels", 2},
		{"template", "a template has the buses its name promises", 21},
	}},
	{"C25", "c25", eqOpts{peel: 6}, []famRule{
		{"order", "a chain applies its processors one after the other, in the order they were added", 8},
		{"bypass", "a bypassed or empty chain leaves the sound alone", 6},
		{"reset", "resetting reaches every processor once", 4},
		{"parallel", "parallel branches each hear the input and are added with their gains", 6},
		{"refuse", "a builder refuses what is missing", 3},
		{"adapt", "an adapter is the processor it adapts", 6},
	}},
	{"C35", "c35", eqOpts{peel: 6}, []famRule{
		{"channels", "a helper visits every channel both sides have, with its own index and buffers", 10},
		{"length", "the block length and the scratch buffers follow the channels", 3},
		{"pass", "passing through copies channel to channel, clearing silences every output", 4},
		{"bus", "buses are found by kind and index, and visited when they are on", 11},
		{"time", "musical time follows from position, tempo and time signature", 6},
	}},
	{"C26", "c26", eqOpts{peel: 6}, []famRule{
		{"start", "a note on starts exactly one voice with its note and velocity, a repeated key plays on its own voice", 3},
		{"event", "note, sustain and other events reach the voices as the protocol says", 5},
		{"off", "a note off releases the voices that play the note, once, and no others", 6},
		{"steal", "with all voices busy the stealing mode names the voice that is taken, and no other is touched", 7},
		{"pedal", "the pedal holds the keys released while it is down until it is lifted, and only those", 5},
		{"mono", "mono and legato play the last note on one voice", 6},
		{"unison", "unison plays each note on every voice", 3},
		{"voices", "the voice limit is between one and the voices there are, and no voice sounds beyond it", 7},
		{"reset", "Reset stops every voice and forgets every note", 2},
		{"history", "short histories of keys, pedal and ending voices leave the voices the mode promises, and nothing sounds on once everything is let go", 400},
	}},
	{"C09", "c09", eqOpts{peel: 12}, []famRule{
		{"round", "what was saved is what is loaded, by id, however the stream is read", 6},
		{"change", "states of earlier versions and with other parameters load what they share", 5},
		{"custom", "custom data is handed back byte for byte, after the parameters", 3},
		{"refuse", "what is not a whole state of ours is refused and changes nothing", 50},
		{"full", "a write that fails is reported", 15},
	}},
	{"C10", "c10", eqOpts{peel: 200, tables: true}, []famRule{
		{"back", "the text a parameter shows gives the value shown when it is typed", 25},
		{"pair", "a parser reads what its formatter shows", 10},
		{"names", "every name is read as what it names", 9},
		{"choice", "a choice shows and takes the names of its options", 5},
		{"refuse", "what is not a value is refused", 12},
	}},
	{"C11", "c11", eqOpts{peel: 12}, []famRule{
		{"design", "a design gives the filter its formula promises, sample by sample", 9},
		{"state", "channels keep their own history, also across changes of the design", 3},
		{"svf", "the state variable filter is its analogue prototype, transformed", 7},
		{"morph", "morphing goes through lowpass, bandpass, highpass and notch and back", 12},
		{"dc", "a DC blocker is its one zero and one pole, channel by channel", 9},
	}},
	{"C14", "c14", eqOpts{peel: 40, tables: true}, []famRule{
		{"line", "a delay line gives back what was written the asked number of samples ago, between samples on the line through its neighbours", 13},
		{"clamp", "a delay outside what the line holds is the nearest one it holds", 7},
		{"comb", "comb and allpass delays follow their equations", 4},
		{"taps", "a multi-tap delay adds its taps with their gains and pans", 3},
		{"mod", "a modulated delay sweeps about its centre", 3},
		{"interp", "interpolation goes through the samples and follows its definition in between", 14},
		{"resample", "resampling reads the input at the ratio and says how much it wrote", 5},
		{"part", "the parts of the reverbs follow their equations", 5},
		{"reverb", "a reverb is its combs and allpasses, mixed as its levels say", 7},
		{"fdn", "the delay network feeds its lines back through an orthogonal matrix, scaled below one", 8},
	}},
	{"C15", "c15", eqOpts{peel: 40, deep: true}, []famRule{
		{"wave", "an oscillator follows its wave from where it is, at its frequency", 30},
		{"blit", "the band-limited waves are their partials below half the sample rate", 6},
		{"adsr", "an envelope goes through its stages by their time constants, from where it is", 12},
		{"ar", "an attack and release envelope goes up and down by its time constants", 4},
		{"follow", "a follower follows the size of the signal, up and down by its time constants", 3},
		{"lfo", "an LFO follows its wave, scaled, shifted and within its bounds", 15},
		{"noise", "noise is its filter over the white noise of its seed", 16},
		{"range", "noise stays between -1 and 1, Gaussian noise is finite", 7},
	}},
	{"C16", "c16", eqOpts{peel: 40, deep: true}, []famRule{
		{"detect", "a detector follows the level of the signal by its mode and times", 15},
		{"compress", "a compressor gives its static curve at the detected level", 10},
		{"limit", "a limiter holds its ceiling", 6},
		{"gate", "a gate goes through its states by its levels and times", 12},
		{"expand", "an expander gives its static curve at the detected level", 5},
		{"linked", "channels are linked by the louder one, a sidechain only detects", 5},
	}},
	{"C21", "c21", eqOpts{peel: 40, deep: true}, []famRule{
		{"shape", "a curve gives its value at the driven signal, mixed and scaled", 30},
		{"crush", "a bit crusher rounds to its steps and holds for its factor, each channel alone", 12},
		{"tape", "tape saturation emphasises, compresses, saturates and delays each channel alone", 6},
		{"tube", "tube saturation follows its curve and its own past in each channel", 5},
	}},
	{"C22", "c22", eqOpts{peel: 40, deep: true}, []famRule{
		{"ring", "a ring modulator multiplies by its carrier, mixed", 12},
		{"tremolo", "a tremolo scales by its wave, each channel by its own phase", 20},
		{"flange", "a flanger adds what its moving delay gives, fed back and clipped", 10},
		{"phase", "a phaser adds what its all-pass sections give, swept over its range", 18},
		{"chorus", "a chorus adds its voices, delayed, panned and fed back", 12},
	}},
	{"C23", "c23", eqOpts{peel: 40, deep: true}, []famRule{
		{"spectrum", "a spectrum is the discrete Fourier transform of its frame", 10},
		{"window", "a window has its shape", 14},
		{"lag", "a cross-correlation is the sum of products at each lag", 4},
		{"peak", "a peak meter rises at once, holds and falls at its rate", 5},
		{"level", "an RMS meter measures its window", 6},
		{"stereo", "correlation, balance and width are those of the channels", 10},
		{"frame", "an analyzer takes, averages and reads its frames as set", 20},
		{"scope", "a phase scope keeps the newest points, placed and dimmed as set", 8},
		{"range", "a measure stays in its range", 1},
	}},
	{"C29", "c29", eqOpts{peel: 40, deep: true}, []famRule{
		{"weigh", "momentary loudness is the power of the newest 400 ms, K-weighted", 8},
		{"channels", "each channel counts with its weight", 7},
		{"window", "short-term loudness is the power of the newest 3 s", 3},
		{"gate", "integrated loudness is gated as BS.1770 says", 6},
		{"cut", "a reading does not depend on how the audio is cut into blocks", 4},
	}},
	{"C31", "c31", eqOpts{peel: 40, deep: true}, []famRule{
		{"identity", "a plugin's class id comes from its id alone", 5},
		{"base", "a base keeps its own description, registry and buses", 6},
		{"hooks", "a callback is called when its event happens, and its error is returned", 8},
	}},
	{"C32", "c32", eqOpts{peel: 40, deep: true, reals: true}, []famRule{
		{"analyze", "an analysis gives the measures of the valid samples", 10},
		{"check", "a check names what is wrong with a buffer", 2},
		{"compare", "a comparison counts the samples that differ", 4},
		{"profile", "a profile holds what was timed under each name", 9},
		{"percentile", "a percentile is that of the ordered newest samples", 6},
		{"load", "the load is the mean time over the time of a buffer", 2},
		{"log", "a message is written at and above the level set, in the form set", 9},
	}},
	{"C08", "c08", eqOpts{peel: 4}, []famRule{
		{"define", "an operation computes what its definition says", 30},
		{"inverse", "a conversion there and back gives the value", 7},
		{"endpoint", "the ends of a range give the ends of the result", 8},
		{"symmetry", "mirrored arguments give the mirrored result", 7},
		{"same", "two forms of an operation agree", 5},
	}},
}
