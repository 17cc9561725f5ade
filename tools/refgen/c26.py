#!/usr/bin/env python3
"""Writes sa/refs/c26_hist.go.txt: short histories of keys, pedal and ending
voices against a model of what each mode promises.

A history is played on an allocator with symbolic velocities; afterwards the
sounding voices of each note, their velocities and their releases are what the
model says, and once every key is up and the pedal is lifted every voice that
still sounds was released (no stuck note)."""
import os
out = ["""// Voice allocation: histories (written by tools/refgen/c26.py).
package zzvsaref

import (
	voice "github.com/justyntemme/vst3go/pkg/framework/voice"
)

// zzHeard is what a voice of a note does: 0 silent, 1 held, 2 released, plus
// its velocity
func zzHeard(n uint8, vs ...*zzVoice) (count, released int, vel int) {
	for _, v := range vs {
		if v.on && v.note == n {
			count++
			if v.let {
				released++
			}
			vel += int(v.vel)
		}
	}
	return
}

// zzEnd lets the voices of a note end by themselves
func zzEnd(n uint8, vs ...*zzVoice) {
	for _, v := range vs {
		if v.note == n {
			v.on = false
		}
	}
}

// zzStuck counts the voices that sound and were never told to end
func zzStuck(vs ...*zzVoice) (n int) {
	for _, v := range vs {
		if v.on && !v.let {
			n++
		}
	}
	return
}
"""]
NOTES = [60, 64, 67]

class Poly:
    def __init__(s, n, steal):
        s.v = [None] * n   # (note, vel, bound, released)
        s.steal = steal
        s.pedal = False
        s.kept = set()
    def on(s, n, vel):
        s.kept.discard(n)
        for i, x in enumerate(s.v):
            if x and x["note"] == n and x["bound"]:
                s.v[i] = dict(note=n, vel=vel, bound=True, rel=False, on=True)
                return
        free = [i for i, x in enumerate(s.v) if not x or not x["on"]]
        if free:
            i = free[0]
        elif s.steal == "None":
            return
        else:
            i = min(range(len(s.v)), key=lambda i: s.v[i]["note"])
        s.v[i] = dict(note=n, vel=vel, bound=True, rel=False, on=True)
    def off(s, n):
        if s.pedal:
            s.kept.add(n)
            return
        for x in s.v:
            if x and x["note"] == n and x["bound"]:
                x["rel"] = True
                x["bound"] = False
    def ped(s, down):
        s.pedal = down
        if not down:
            k, s.kept = s.kept, set()
            for n in k:
                s.off(n)
    def end(s, n):
        for x in s.v:
            if x and x["note"] == n:
                x["on"] = False
    def tied(s):  # two voices of one note: which of them is stolen is open
        ns = [x["note"] for x in s.v if x and x["on"]]
        return len(set(ns)) < len(ns)
    def heard(s, n):
        xs = [x for x in s.v if x and x["on"] and x["note"] == n]
        return len(xs), sum(x["rel"] for x in xs), [x["vel"] for x in xs]

class Mono(Poly):
    def __init__(s, n, steal):
        Poly.__init__(s, n, steal)
        s.cur = None
        s.all = steal == "Unison"
    def on(s, n, vel):
        s.kept.discard(n)
        for i in range(len(s.v) if s.all else 1):
            s.v[i] = dict(note=n, vel=vel, bound=True, rel=False, on=True)
        s.cur = n
    def off(s, n):
        if s.pedal:
            s.kept.add(n)
            return
        if s.cur == n:
            for x in s.v:
                if x: x["rel"] = True
            s.cur = None
    def tied(s): return False

def histories(length, ends):
    """sequences a keyboard can play: a key goes down only when it is up"""
    def go(seq, down, pedal, ons):
        if len(seq) == length:
            yield seq
            return
        for n in NOTES[:2] if length > 4 else NOTES:
            if n in down:
                yield from go(seq + [("off", n)], down - {n}, pedal, ons)
            else:
                # keys are first struck in one order: the others are renamings
                used = {x[1] for x in seq if x[0] == "on"}
                first = [m for m in NOTES if m not in used]
                if n in used or n == first[0]:
                    yield from go(seq + [("on", n)], down | {n}, pedal, ons + 1)
        if not seq or seq[-1][0] != "ped":
            yield from go(seq + [("ped", not pedal)], down, not pedal, ons)
        if ends and ons and seq[-1][0] != "end":
            for n in sorted({x[1] for x in seq if x[0] == "on"}):
                yield from go(seq + [("end", n)], down, pedal, ons)
    yield from go([], frozenset(), False, 0)

def worth(seq):
    ons = [x for x in seq if x[0] == "on"]
    offs = [x for x in seq if x[0] in ("off", "end")]
    if seq[-1][0] in ("on",) and len(seq) < 4 or len(ons) < 2 or not offs:
        return False
    return True

def emit(tag, seq, mode, nv, steal):
    m = (Poly if mode == "Poly" else Mono)(nv, steal)
    vs = ["p", "q", "r"][:nv]
    body = [f"\t{', '.join(vs)} := {', '.join('&zzVoice{}' for _ in vs)}",
            f"\ta := voice.NewAllocator([]voice.Voice{{{', '.join(vs)}}})"]
    if mode != "Poly":
        body.append(f"\ta.SetMode(voice.Mode{mode})")
    else:
        body.append(f"\ta.SetStealingMode(voice.Steal{steal})")
    vl = iter("stuvwxyz")
    used, down, pedal = [], set(), False
    for op, x in seq:
        if op == "on":
            v = next(vl); used.append(v)
            body.append(f"\tzzFresh({x}, {', '.join(vs)})") if False else None
            body.append(f"\ta.NoteOn({x}, {v})")
            m.on(x, v); down.add(x)
        elif op == "off":
            body.append(f"\ta.NoteOff({x}, 0)"); m.off(x); down.discard(x)
        elif op == "ped":
            body.append(f"\ta.SetSustainPedal({'true' if x else 'false'})"); m.ped(x); pedal = x
        else:
            body.append(f"\tzzEnd({x}, {', '.join(vs)})"); m.end(x)
        if m.tied():
            return None
    notes = sorted({x for op, x in seq if op == "on"})
    want = []
    for i, n in enumerate(notes):
        body.append(f"\tc{i}, r{i}, v{i} := zzHeard({n}, {', '.join(vs)})")
        c, r, v = m.heard(n)
        want += [str(c), str(r), " + ".join(f"int({x})" for x in v) or "0"]
    # everything let go: no voice sounds on
    for n in sorted(down):
        body.append(f"\ta.NoteOff({n}, 0)")
    if pedal:
        body.append("\ta.SetSustainPedal(false)")
    res = ", ".join(f"c{i}, r{i}, v{i}" for i in range(len(notes)))
    body.append(f"\treturn {res}, zzStuck({', '.join(vs)})")
    want.append("0")
    T = "(" + ", ".join(["int"] * len(want)) + ")"
    args = ", ".join(used) + " uint8"
    return f"func Lhs_{tag}({args}) {T} {{\n" + "\n".join(b for b in body if b) + f"\n}}\nfunc Rhs_{tag}({args}) {T} {{ return {', '.join(want)} }}\n"

short = {"on": "n", "off": "f", "ped": "p", "end": "e"}
def tagof(seq):
    return "".join(short[op] + ("" if op == "ped" else str(x)) for op, x in seq)

n = 0
import random
rnd = random.Random(26)
for mode, nv, steal, L, ends, cap in [
        ("Poly", 1, "Lowest", 4, True, None), ("Poly", 1, "Lowest", 5, True, None),
        ("Poly", 1, "Lowest", 6, False, None), ("Poly", 1, "Lowest", 6, True, 150),
        ("Poly", 2, "Lowest", 5, True, 120), ("Poly", 2, "Lowest", 6, False, None),
        ("Poly", 2, "None", 4, True, None), ("Poly", 2, "None", 5, False, None),
        ("Mono", 2, "x", 5, False, None), ("Mono", 2, "x", 6, False, 60),
        ("Unison", 2, "Unison", 5, False, None)]:
    seqs = [s for s in histories(L, ends) if worth(s)]
    if ends and L == 6:
        seqs = [s for s in seqs if any(op == "end" for op, _ in s)]
    if cap and len(seqs) > cap:
        seqs = rnd.sample(seqs, cap)
    for s in seqs:
        e = emit(f"history_{mode}{nv}{steal}_{tagof(s)}", s, mode, nv, steal)
        if e:
            out.append(e); n += 1
open(os.path.join(os.path.dirname(__file__), "../../sa/refs/c26_hist.go.txt"), "w").write("\n".join(out))
print(n, "histories")
