/* Stand-in for the VST3 C API header, which is not part of the repository.
   It declares what the repository's Go and C sources name, with the layout of
   the interface (field order and widths) as published, so that they can be
   type-checked. It is only ever compiled, never linked into anything that runs. */
#ifndef VERIF_VST3_C_API_H
#define VERIF_VST3_C_API_H
#include <stdint.h>

#define SMTG_STDMETHODCALLTYPE

typedef int8_t Steinberg_int8;
typedef uint8_t Steinberg_uint8;
typedef int16_t Steinberg_int16;
typedef uint16_t Steinberg_uint16;
typedef int32_t Steinberg_int32;
typedef uint32_t Steinberg_uint32;
typedef int64_t Steinberg_int64;
typedef uint64_t Steinberg_uint64;
typedef char Steinberg_char8;
typedef int16_t Steinberg_char16;
typedef uint8_t Steinberg_TBool;
typedef Steinberg_int32 Steinberg_tresult;
typedef char Steinberg_TUID[16];
typedef const Steinberg_char8* Steinberg_FIDString;

typedef double Steinberg_Vst_ParamValue;
typedef Steinberg_uint32 Steinberg_Vst_ParamID;
typedef Steinberg_char16 Steinberg_Vst_TChar;
typedef Steinberg_Vst_TChar Steinberg_Vst_String128[128];
typedef Steinberg_int32 Steinberg_Vst_UnitID;
typedef Steinberg_int32 Steinberg_Vst_MediaType;
typedef Steinberg_int32 Steinberg_Vst_BusDirection;
typedef Steinberg_int32 Steinberg_Vst_BusType;
typedef Steinberg_int32 Steinberg_Vst_IoMode;
typedef float Steinberg_Vst_Sample32;
typedef double Steinberg_Vst_Sample64;
typedef double Steinberg_Vst_SampleRate;
typedef double Steinberg_Vst_TQuarterNotes;
typedef Steinberg_int64 Steinberg_Vst_TSamples;
typedef Steinberg_uint64 Steinberg_Vst_SpeakerArrangement;
typedef Steinberg_int16 Steinberg_Vst_CtrlNumber;

enum { Steinberg_kNoInterface = -1, Steinberg_kResultOk = 0, Steinberg_kResultTrue = 0, Steinberg_kResultFalse = 1,
       Steinberg_kInvalidArgument = 2, Steinberg_kNotImplemented = 3 };
typedef enum { Steinberg_PFactoryInfo_FactoryFlags_kUnicode = 1 << 4 } Steinberg_PFactoryInfo_FactoryFlags;
typedef enum { Steinberg_PClassInfo_ClassCardinality_kManyInstances = 0x7FFFFFFF } Steinberg_PClassInfo_ClassCardinality;
typedef enum { Steinberg_Vst_MediaTypes_kAudio = 0, Steinberg_Vst_MediaTypes_kEvent = 1 } Steinberg_Vst_MediaTypes;
typedef enum { Steinberg_Vst_BusDirections_kInput = 0, Steinberg_Vst_BusDirections_kOutput = 1 } Steinberg_Vst_BusDirections;
typedef enum { Steinberg_Vst_BusTypes_kMain = 0, Steinberg_Vst_BusTypes_kAux = 1 } Steinberg_Vst_BusTypes;
typedef enum {
    Steinberg_Vst_ParameterInfo_ParameterFlags_kNoFlags = 0,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kCanAutomate = 1 << 0,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsReadOnly = 1 << 1,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsWrapAround = 1 << 2,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsList = 1 << 3,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsHidden = 1 << 4,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsProgramChange = 1 << 15,
    Steinberg_Vst_ParameterInfo_ParameterFlags_kIsBypass = 1 << 16
} Steinberg_Vst_ParameterInfo_ParameterFlags;
typedef enum {
    Steinberg_Vst_ProcessContext_StatesAndFlags_kPlaying = 1 << 1,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kCycleActive = 1 << 2,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kRecording = 1 << 3,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kSystemTimeValid = 1 << 8,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kProjectTimeMusicValid = 1 << 9,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kTempoValid = 1 << 10,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kBarPositionValid = 1 << 11,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kCycleValid = 1 << 12,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kTimeSigValid = 1 << 13,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kSmpteValid = 1 << 14,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kClockValid = 1 << 15,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kContTimeValid = 1 << 17,
    Steinberg_Vst_ProcessContext_StatesAndFlags_kChordValid = 1 << 18
} Steinberg_Vst_ProcessContext_StatesAndFlags;
typedef enum {
    Steinberg_Vst_Event_EventTypes_kNoteOnEvent = 0,
    Steinberg_Vst_Event_EventTypes_kNoteOffEvent = 1,
    Steinberg_Vst_Event_EventTypes_kDataEvent = 2,
    Steinberg_Vst_Event_EventTypes_kPolyPressureEvent = 3
} Steinberg_Vst_Event_EventTypes;

struct Steinberg_FUnknown;
struct Steinberg_IPlugView;
struct Steinberg_IBStream;
struct Steinberg_IPluginFactory;
struct Steinberg_Vst_IComponentHandler;
struct Steinberg_Vst_IParameterChanges;
struct Steinberg_Vst_IParamValueQueue;
struct Steinberg_Vst_IEventList;

#define VERIF_UNKNOWN \
    Steinberg_tresult (SMTG_STDMETHODCALLTYPE *queryInterface)(void*, const Steinberg_TUID, void**); \
    Steinberg_uint32 (SMTG_STDMETHODCALLTYPE *addRef)(void*); \
    Steinberg_uint32 (SMTG_STDMETHODCALLTYPE *release)(void*);

typedef struct Steinberg_FUnknownVtbl { VERIF_UNKNOWN } Steinberg_FUnknownVtbl;
typedef struct Steinberg_FUnknown { struct Steinberg_FUnknownVtbl* lpVtbl; } Steinberg_FUnknown;
typedef struct Steinberg_IPlugView { void* lpVtbl; } Steinberg_IPlugView;

static const Steinberg_TUID Steinberg_FUnknown_iid = {0};
static const Steinberg_TUID Steinberg_IPluginFactory_iid = {1};
static const Steinberg_TUID Steinberg_IPluginBase_iid = {2};
static const Steinberg_TUID Steinberg_Vst_IComponent_iid = {3};
static const Steinberg_TUID Steinberg_Vst_IAudioProcessor_iid = {4};
static const Steinberg_TUID Steinberg_Vst_IEditController_iid = {5};

typedef struct Steinberg_IBStreamVtbl {
    VERIF_UNKNOWN
    Steinberg_tresult (*read)(void*, void*, Steinberg_int32, Steinberg_int32*);
    Steinberg_tresult (*write)(void*, void*, Steinberg_int32, Steinberg_int32*);
    Steinberg_tresult (*seek)(void*, Steinberg_int64, Steinberg_int32, Steinberg_int64*);
    Steinberg_tresult (*tell)(void*, Steinberg_int64*);
} Steinberg_IBStreamVtbl;
typedef struct Steinberg_IBStream { struct Steinberg_IBStreamVtbl* lpVtbl; } Steinberg_IBStream;

typedef struct Steinberg_PFactoryInfo { Steinberg_char8 vendor[64]; Steinberg_char8 url[256]; Steinberg_char8 email[128]; Steinberg_int32 flags; } Steinberg_PFactoryInfo;
typedef struct Steinberg_PClassInfo { Steinberg_TUID cid; Steinberg_int32 cardinality; Steinberg_char8 category[32]; Steinberg_char8 name[64]; } Steinberg_PClassInfo;
typedef struct Steinberg_IPluginFactoryVtbl {
    VERIF_UNKNOWN
    Steinberg_tresult (*getFactoryInfo)(void*, struct Steinberg_PFactoryInfo*);
    Steinberg_int32 (*countClasses)(void*);
    Steinberg_tresult (*getClassInfo)(void*, Steinberg_int32, struct Steinberg_PClassInfo*);
    Steinberg_tresult (*createInstance)(void*, Steinberg_FIDString, Steinberg_FIDString, void**);
} Steinberg_IPluginFactoryVtbl;
typedef struct Steinberg_IPluginFactory { struct Steinberg_IPluginFactoryVtbl* lpVtbl; } Steinberg_IPluginFactory;

typedef struct Steinberg_Vst_BusInfo {
    Steinberg_Vst_MediaType mediaType; Steinberg_Vst_BusDirection direction; Steinberg_int32 channelCount;
    Steinberg_Vst_String128 name; Steinberg_Vst_BusType busType; Steinberg_uint32 flags;
} Steinberg_Vst_BusInfo;
typedef struct Steinberg_Vst_RoutingInfo { Steinberg_Vst_MediaType mediaType; Steinberg_int32 busIndex; Steinberg_int32 channel; } Steinberg_Vst_RoutingInfo;
typedef struct Steinberg_Vst_ParameterInfo {
    Steinberg_Vst_ParamID id; Steinberg_Vst_String128 title; Steinberg_Vst_String128 shortTitle; Steinberg_Vst_String128 units;
    Steinberg_int32 stepCount; Steinberg_Vst_ParamValue defaultNormalizedValue; Steinberg_Vst_UnitID unitId; Steinberg_int32 flags;
} Steinberg_Vst_ParameterInfo;
typedef struct Steinberg_Vst_ProcessSetup {
    Steinberg_int32 processMode; Steinberg_int32 symbolicSampleSize; Steinberg_int32 maxSamplesPerBlock; Steinberg_Vst_SampleRate sampleRate;
} Steinberg_Vst_ProcessSetup;
typedef struct Steinberg_Vst_AudioBusBuffers {
    Steinberg_int32 numChannels; Steinberg_uint64 silenceFlags;
    union { Steinberg_Vst_Sample32** Steinberg_Vst_AudioBusBuffers_channelBuffers32; Steinberg_Vst_Sample64** Steinberg_Vst_AudioBusBuffers_channelBuffers64; };
} Steinberg_Vst_AudioBusBuffers;
typedef struct Steinberg_Vst_FrameRate { Steinberg_uint32 framesPerSecond; Steinberg_uint32 flags; } Steinberg_Vst_FrameRate;
typedef struct Steinberg_Vst_Chord { Steinberg_uint8 keyNote; Steinberg_uint8 rootNote; Steinberg_int16 chordMask; } Steinberg_Vst_Chord;
typedef struct Steinberg_Vst_ProcessContext {
    Steinberg_uint32 state; double sampleRate; Steinberg_Vst_TSamples projectTimeSamples; Steinberg_int64 systemTime;
    Steinberg_Vst_TSamples continousTimeSamples; Steinberg_Vst_TQuarterNotes projectTimeMusic; Steinberg_Vst_TQuarterNotes barPositionMusic;
    Steinberg_Vst_TQuarterNotes cycleStartMusic; Steinberg_Vst_TQuarterNotes cycleEndMusic; double tempo;
    Steinberg_int32 timeSigNumerator; Steinberg_int32 timeSigDenominator; struct Steinberg_Vst_Chord chord;
    Steinberg_int32 smpteOffsetSubframes; struct Steinberg_Vst_FrameRate frameRate; Steinberg_int32 samplesToNextClock;
} Steinberg_Vst_ProcessContext;
typedef struct Steinberg_Vst_ProcessData {
    Steinberg_int32 processMode; Steinberg_int32 symbolicSampleSize; Steinberg_int32 numSamples; Steinberg_int32 numInputs; Steinberg_int32 numOutputs;
    struct Steinberg_Vst_AudioBusBuffers* inputs; struct Steinberg_Vst_AudioBusBuffers* outputs;
    struct Steinberg_Vst_IParameterChanges* inputParameterChanges; struct Steinberg_Vst_IParameterChanges* outputParameterChanges;
    struct Steinberg_Vst_IEventList* inputEvents; struct Steinberg_Vst_IEventList* outputEvents;
    struct Steinberg_Vst_ProcessContext* processContext;
} Steinberg_Vst_ProcessData;
typedef struct Steinberg_Vst_NoteOnEvent { Steinberg_int16 channel; Steinberg_int16 pitch; float tuning; float velocity; Steinberg_int32 length; Steinberg_int32 noteId; } Steinberg_Vst_NoteOnEvent;
typedef struct Steinberg_Vst_NoteOffEvent { Steinberg_int16 channel; Steinberg_int16 pitch; float velocity; Steinberg_int32 noteId; float tuning; } Steinberg_Vst_NoteOffEvent;
typedef struct Steinberg_Vst_Event {
    Steinberg_int32 busIndex; Steinberg_int32 sampleOffset; Steinberg_Vst_TQuarterNotes ppqPosition; Steinberg_uint16 flags; Steinberg_uint16 type;
    union { struct Steinberg_Vst_NoteOnEvent Steinberg_Vst_Event_noteOn; struct Steinberg_Vst_NoteOffEvent Steinberg_Vst_Event_noteOff; };
} Steinberg_Vst_Event;

typedef struct Steinberg_Vst_IComponentHandlerVtbl {
    VERIF_UNKNOWN
    Steinberg_tresult (*beginEdit)(void*, Steinberg_Vst_ParamID);
    Steinberg_tresult (*performEdit)(void*, Steinberg_Vst_ParamID, Steinberg_Vst_ParamValue);
    Steinberg_tresult (*endEdit)(void*, Steinberg_Vst_ParamID);
    Steinberg_tresult (*restartComponent)(void*, Steinberg_int32);
} Steinberg_Vst_IComponentHandlerVtbl;
typedef struct Steinberg_Vst_IComponentHandler { struct Steinberg_Vst_IComponentHandlerVtbl* lpVtbl; } Steinberg_Vst_IComponentHandler;
typedef struct Steinberg_Vst_IParamValueQueueVtbl {
    VERIF_UNKNOWN
    Steinberg_Vst_ParamID (*getParameterId)(void*);
    Steinberg_int32 (*getPointCount)(void*);
    Steinberg_tresult (*getPoint)(void*, Steinberg_int32, Steinberg_int32*, Steinberg_Vst_ParamValue*);
    Steinberg_tresult (*addPoint)(void*, Steinberg_int32, Steinberg_Vst_ParamValue, Steinberg_int32*);
} Steinberg_Vst_IParamValueQueueVtbl;
typedef struct Steinberg_Vst_IParamValueQueue { struct Steinberg_Vst_IParamValueQueueVtbl* lpVtbl; } Steinberg_Vst_IParamValueQueue;
typedef struct Steinberg_Vst_IParameterChangesVtbl {
    VERIF_UNKNOWN
    Steinberg_int32 (*getParameterCount)(void*);
    struct Steinberg_Vst_IParamValueQueue* (*getParameterData)(void*, Steinberg_int32);
    struct Steinberg_Vst_IParamValueQueue* (*addParameterData)(void*, const Steinberg_Vst_ParamID*, Steinberg_int32*);
} Steinberg_Vst_IParameterChangesVtbl;
typedef struct Steinberg_Vst_IParameterChanges { struct Steinberg_Vst_IParameterChangesVtbl* lpVtbl; } Steinberg_Vst_IParameterChanges;
typedef struct Steinberg_Vst_IEventListVtbl {
    VERIF_UNKNOWN
    Steinberg_int32 (*getEventCount)(void*);
    Steinberg_tresult (*getEvent)(void*, Steinberg_int32, struct Steinberg_Vst_Event*);
    Steinberg_tresult (*addEvent)(void*, struct Steinberg_Vst_Event*);
} Steinberg_Vst_IEventListVtbl;
typedef struct Steinberg_Vst_IEventList { struct Steinberg_Vst_IEventListVtbl* lpVtbl; } Steinberg_Vst_IEventList;

#endif
