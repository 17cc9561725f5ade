package plugin

// #include "../../include/vst3/vst3_c_api.h"
// #include "../../bridge/bridge.h"
// #include <stdlib.h>
// #include <string.h>
//
// // A host for the demonstration: what it answers is in these tables.
// typedef struct { uint32_t id; int32_t n; int32_t off[8]; double val[8]; } demo_queue;
// static demo_queue demoQ[4];
// static int32_t demoNQ;
// static struct Steinberg_Vst_Event demoE[8];
// static int32_t demoNE;
// int32_t getParameterChangeCount(void* p) { return demoNQ; }
// void* getParameterData(void* p, int32_t i) { return &demoQ[i]; }
// uint32_t getParameterId(void* q) { return ((demo_queue*)q)->id; }
// int32_t getPointCount(void* q) { return ((demo_queue*)q)->n; }
// int32_t getPoint(void* q, int32_t i, int32_t* o, double* v) { *o = ((demo_queue*)q)->off[i]; *v = ((demo_queue*)q)->val[i]; return 0; }
// int32_t getEventCount(void* l) { return demoNE; }
// int32_t getEvent(void* l, int32_t i, struct Steinberg_Vst_Event* e) { *e = demoE[i]; return 0; }
// uint16_t getEventType(struct Steinberg_Vst_Event* e) { return e->type; }
// struct Steinberg_Vst_NoteOnEvent* getNoteOnEvent(struct Steinberg_Vst_Event* e) { return &e->Steinberg_Vst_Event_noteOn; }
// struct Steinberg_Vst_NoteOffEvent* getNoteOffEvent(struct Steinberg_Vst_Event* e) { return &e->Steinberg_Vst_Event_noteOff; }
// void* createComponent(void* p) { return p; }
//
// static void demoClear() { demoNQ = 0; demoNE = 0; }
// static void demoNote(int kind, int off, int ch, int pitch, float vel) {
//     struct Steinberg_Vst_Event* e = &demoE[demoNE++];
//     memset(e, 0, sizeof *e);
//     e->type = kind; e->sampleOffset = off;
//     if (kind == 0) { e->Steinberg_Vst_Event_noteOn.channel = ch; e->Steinberg_Vst_Event_noteOn.pitch = pitch; e->Steinberg_Vst_Event_noteOn.velocity = vel; }
//     else { e->Steinberg_Vst_Event_noteOff.channel = ch; e->Steinberg_Vst_Event_noteOff.pitch = pitch; e->Steinberg_Vst_Event_noteOff.velocity = vel; }
// }
// static void demoQueue(uint32_t id) { memset(&demoQ[demoNQ], 0, sizeof demoQ[0]); demoQ[demoNQ++].id = id; }
// static void demoPoint(int off, double v) { demo_queue* q = &demoQ[demoNQ - 1]; q->off[q->n] = off; q->val[q->n++] = v; }
// static struct Steinberg_Vst_AudioBusBuffers* demoBuses(int buses, int* chans, int n) {
//     struct Steinberg_Vst_AudioBusBuffers* b = calloc(buses, sizeof *b);
//     for (int i = 0; i < buses; i++) {
//         float** c = calloc(chans[i], sizeof *c);
//         for (int j = 0; j < chans[i]; j++) c[j] = calloc(n, sizeof **c);
//         b[i].numChannels = chans[i];
//         b[i].Steinberg_Vst_AudioBusBuffers_channelBuffers32 = c;
//     }
//     return b;
// }
// static float* demoChannel(struct Steinberg_Vst_AudioBusBuffers* b, int bus, int ch) { return b[bus].Steinberg_Vst_AudioBusBuffers_channelBuffers32[ch]; }
// static void demoDrop(struct Steinberg_Vst_AudioBusBuffers* b, int bus, int ch) { b[bus].Steinberg_Vst_AudioBusBuffers_channelBuffers32[ch] = 0; }
// static struct Steinberg_Vst_ProcessData* demoData(int buses, int* chans, int n) {
//     struct Steinberg_Vst_ProcessData* d = calloc(1, sizeof *d);
//     d->numSamples = n; d->numInputs = d->numOutputs = buses;
//     d->inputs = demoBuses(buses, chans, n); d->outputs = demoBuses(buses, chans, n);
//     d->inputParameterChanges = (void*)demoQ; d->inputEvents = (void*)demoE;
//     d->processContext = calloc(1, sizeof *d->processContext);
//     return d;
// }
//
// typedef struct { struct Steinberg_IBStreamVtbl* vtbl; char data[4096]; int len, pos, most, full; } demo_stream;
// static Steinberg_tresult demoRead(void* p, void* b, Steinberg_int32 n, Steinberg_int32* got) {
//     demo_stream* s = p; int k = n;
//     if (k > s->most) k = s->most;
//     if (k > s->len - s->pos) k = s->len - s->pos;
//     memcpy(b, s->data + s->pos, k); s->pos += k; *got = k; return 0;
// }
// static Steinberg_tresult demoWrite(void* p, void* b, Steinberg_int32 n, Steinberg_int32* put) {
//     demo_stream* s = p; int k = n;
//     if (k > s->most) k = s->most;
//     if (k > s->full - s->len) k = s->full - s->len;
//     memcpy(s->data + s->len, b, k); s->len += k; *put = k; return 0;
// }
// static Steinberg_tresult demoSeek(void* p, Steinberg_int64 o, Steinberg_int32 m, Steinberg_int64* at) {
//     demo_stream* s = p; s->pos = m == 0 ? o : m == 1 ? s->pos + o : s->len + o; *at = s->pos; return 0;
// }
// static Steinberg_tresult demoTell(void* p, Steinberg_int64* at) { *at = ((demo_stream*)p)->pos; return 0; }
// static void* demoStream(int most, int full) {
//     demo_stream* s = calloc(1, sizeof *s);
//     s->vtbl = calloc(1, sizeof *s->vtbl);
//     s->vtbl->read = demoRead; s->vtbl->write = demoWrite; s->vtbl->seek = demoSeek; s->vtbl->tell = demoTell;
//     s->most = most; s->full = full;
//     return s;
// }
// static char demoTold[16];
// static int demoTolds;
// static Steinberg_tresult demoBegin(void* h, Steinberg_Vst_ParamID id) { demoTold[demoTolds++] = 'b'; return 0; }
// static Steinberg_tresult demoPerform(void* h, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue v) { demoTold[demoTolds++] = 'p'; return 0; }
// static Steinberg_tresult demoEnd(void* h, Steinberg_Vst_ParamID id) { demoTold[demoTolds++] = 'e'; return 0; }
// static void* demoHandler() {
//     struct Steinberg_Vst_IComponentHandler* h = calloc(1, sizeof *h);
//     h->lpVtbl = calloc(1, sizeof *h->lpVtbl);
//     h->lpVtbl->beginEdit = (void*)demoBegin; h->lpVtbl->performEdit = (void*)demoPerform; h->lpVtbl->endEdit = (void*)demoEnd;
//     demoTolds = 0;
//     return h;
// }
// static int demoToldCount() { return demoTolds; }
// static char demoToldAt(int i) { return demoTold[i]; }
// static void demoPut(void* p, char c) { demo_stream* s = p; s->data[s->len++] = c; }
// static int demoLen(void* p) { return ((demo_stream*)p)->len; }
// static char demoAt(void* p, int i) { return ((demo_stream*)p)->data[i]; }
import "C"
import "unsafe"

type demoHost struct {
	d       *C.struct_Steinberg_Vst_ProcessData
	in, out [][]float32 // the channels of all buses, in order
}

func newDemoHost(n int, chans ...int) *demoHost {
	C.demoClear()
	cs := make([]C.int, len(chans))
	for i, c := range chans {
		cs[i] = C.int(c)
	}
	h := &demoHost{d: C.demoData(C.int(len(chans)), &cs[0], C.int(n))}
	for b, c := range chans {
		for i := 0; i < c; i++ {
			h.in = append(h.in, unsafe.Slice((*float32)(unsafe.Pointer(C.demoChannel(h.d.inputs, C.int(b), C.int(i)))), n))
			h.out = append(h.out, unsafe.Slice((*float32)(unsafe.Pointer(C.demoChannel(h.d.outputs, C.int(b), C.int(i)))), n))
		}
	}
	return h
}
func (h *demoHost) drop(bus, ch int) { C.demoDrop(h.d.outputs, C.int(bus), C.int(ch)) }
func (h *demoHost) clear() { C.demoClear() }
func (h *demoHost) note(kind, off, ch, pitch int, vel float32) {
	C.demoNote(C.int(kind), C.int(off), C.int(ch), C.int(pitch), C.float(vel))
}
func (h *demoHost) queue(id uint32)            { C.demoQueue(C.uint32_t(id)) }
func (h *demoHost) point(off int, v float64)   { C.demoPoint(C.int(off), C.double(v)) }
func (h *demoHost) context() *C.struct_Steinberg_Vst_ProcessContext { return h.d.processContext }
func (h *demoHost) transport(state uint32, tempo float64) {
	h.d.processContext.state, h.d.processContext.tempo = C.Steinberg_uint32(state), C.double(tempo)
}
func (h *demoHost) run(c *componentImpl) { c.Process(unsafe.Pointer(h.d)) }

func demoActivate(h unsafe.Pointer, on int) int { return int(GoComponentSetActive(h, C.int32_t(on))) }
func demoGetState(h unsafe.Pointer, s unsafe.Pointer) int { return int(GoComponentGetState(h, s)) }
func demoSetState(h unsafe.Pointer, s unsafe.Pointer) int { return int(GoComponentSetState(h, s)) }
func demoSetValue(h unsafe.Pointer, id uint32, v float64) int {
	return int(GoEditControllerSetParamNormalized(h, C.uint32_t(id), C.double(v)))
}
func demoCreate(cid [16]byte) unsafe.Pointer { return GoCreateInstance((*C.char)(unsafe.Pointer(&cid[0])), nil) }
func demoSetup(h unsafe.Pointer, rate float64, block int) int {
	var s C.struct_Steinberg_Vst_ProcessSetup
	s.sampleRate, s.maxSamplesPerBlock = C.double(rate), C.Steinberg_int32(block)
	return int(GoAudioSetupProcessing(h, unsafe.Pointer(&s)))
}
func newDemoStream(most, full int, data string) unsafe.Pointer {
	s := C.demoStream(C.int(most), C.int(full))
	for i := 0; i < len(data); i++ {
		C.demoPut(s, C.char(data[i]))
	}
	return s
}
func demoStreamData(s unsafe.Pointer) string {
	var b []byte
	for i := 0; i < int(C.demoLen(s)); i++ {
		b = append(b, byte(C.demoAt(s, C.int(i))))
	}
	return string(b)
}
func demoTitle(h unsafe.Pointer, index int) (t []uint16) {
	var i C.struct_Steinberg_Vst_ParameterInfo
	GoEditControllerGetParameterInfo(h, C.int32_t(index), &i)
	for _, u := range i.title {
		if u == 0 {
			break
		}
		t = append(t, uint16(u))
	}
	return
}
func newDemoHandler() unsafe.Pointer { return C.demoHandler() }
func demoTold() (t string) {
	for i := 0; i < int(C.demoToldCount()); i++ {
		t += string(rune(C.demoToldAt(C.int(i))))
	}
	return
}
