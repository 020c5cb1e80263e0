#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json
VF="gated value-flow analysis (abstract interpretation over go/ssa, paths joined at merges)"
claims={
 'C01':(VF+"; the encoder's normal form compared, per message field, with that of a reference encoder","Every field of every message kind, one arbitrary element of each repeated field; all values of scalar fields, not samples. Trusted: the models of fmt, strconv, strings, proto.Equal and ibeam-lib-utils calls, and the reference encoder in /verif/spec."),
 'C02':(VF+" and regular-language inclusion; the decoder's normal form on each symbolic grammar production compared with the denotation of that production","Each production of the inbound grammar with symbolic fields; lines outside the grammar via language inclusion of every effectful path. Text of one line at a time plus the order rule. Trusted: models of regexp, strconv, base64, json calls."),
 'C03':(VF+"; the encoder's normal form compared, per message field, with that of a reference encoder","As C01 for panel-to-system messages."),
 'C04':(VF+" and regular-language inclusion; the decoder's normal form on each symbolic grammar production compared with the denotation of that production","As C02 for panel-to-system lines."),
 'C13':(VF+"; every look-up and predicate of the topology package compared with a reference resolver/predicate, plus not-mutated (effect analysis) and lock-order rules","Arbitrary topology whose component list and sub-element list have up to three symbolic elements, arbitrary index map, arbitrary override presence; all ids. Trusted: models of strings/map access and the reference in /verif/spec/topo.go."),
 'C14':(VF+"; the topology's meaning (reference view) before and after each transformation compared, serialisation schema checked on the type declarations","Arbitrary contents; type index of 0-3 entries with arbitrary distinct numbers visited in arbitrary order, two components of any indexed type or 0, random draws arbitrary up to n+1 then assumed fresh; section markers in every pattern of up to 5 (thorough 8) components. encoding/json is modelled by field names."),
 'C15':(VF+"; the elements added to the parsed base document compared with a reference list of shapes; the DOM library's mutation functions are analysed in place","One or two components, up to three sub-elements, arbitrary overrides, availability map, labels, options and base documents with up to two elements. XML parsing and printing by go-xmldom trusted; text position and styling not compared."),
 'C07':(VF+" with a character-set domain for strings and a model of line splitting/joining","Every produced string of both encoders, any text content; flattening decided on an arbitrary string of arbitrary lines."),
 'C06':(VF+" with every run-time panic condition, loop and result element as an obligation; points-to-root write effects and lock state for re-entrancy","Arbitrary line contents (two lines), arbitrary messages with one symbolic element per repeated field, arbitrary reader state. Field splitting of an unconstrained string bounded to 3 fields. Panics inside modelled library calls are trusted not to occur. Re-entrancy: no unsynchronised write to package-level state or inputs, no state carried between calls."),
 'C05':(VF+" of the batch decoder and the streaming reader on every bounded history of chunk lines (shape enumerated, payload symbolic) against a reference reassembly automaton; in-place append modelled so that shared buffers are seen","Histories of up to 4 (thorough: 5) chunk lines over index/last-index/target/format shapes, fed at once, one at a time and with saved/restored state, with unrelated lines in between; clean runs of up to 300 lines; encoder output of chosen lengths read back. Payload bytes are arbitrary; history length is bounded."),
 'C08':("context-sensitive value-flow analysis of the client's SSA composed with an environment automaton (scripted peer, caller, cancellation, model of net/time/sync/context/channels): typestate and ordering obligations on every schedule with a bounded number of deviations from the default one; frame reading compared with a reference segmentation","Symbolic payloads of scripted sizes, every segmentation class and pauses listed in the evidence, at most the listed number of schedule deviations. Message contents are opaque (protobuf trusted). Trusted: the models of net.Conn, bufio, time, context, channels and locks."),
 'C09':("context-sensitive value-flow analysis of the client's SSA composed with an environment automaton (scripted peer, caller, cancellation, model of net/time/sync/context/channels): typestate and ordering obligations on every schedule with a bounded number of deviations from the default one; the bytes written to every connection compared with those of a reference serialiser","Lists of up to the listed number of messages with symbolic contents and sizes up to the 32-bit boundary, one or more submitters, reconnects, both encodings. Encoder results are opaque lines (C01)."),
 'C10':("context-sensitive value-flow analysis of the client's SSA composed with an environment automaton (scripted peer, caller, cancellation, model of net/time/sync/context/channels): typestate and ordering obligations on every schedule with a bounded number of deviations from the default one; release of every resource and return of every goroutine as obligations after malformed frames","All header classes (negative, zero, limit, beyond), truncations at each listed offset, undecodable payloads, stalls; recovery on the next connection is required."),
 'C11':("context-sensitive value-flow analysis of the client's SSA composed with an environment automaton (scripted peer, caller, cancellation, model of net/time/sync/context/channels): typestate and ordering obligations on every schedule with a bounded number of deviations from the default one; goroutine/connection/timer life-cycle typestate under cancellation, refusal and disconnect at any point","Cancellation is placed at every distinct scheduling point of each scenario; bounded schedule deviations; at most the scripted number of connections."),
 'C12':("context-sensitive value-flow analysis of the client's SSA composed with an environment automaton (scripted peer, caller, cancellation, model of net/time/sync/context/channels): typestate and ordering obligations on every schedule with a bounded number of deviations from the default one; negotiated mode compared with a reference classification of the reply","Replies: ACK frames, RDY/list/other lines with and without CR/LF, ErrorMsg texts of symbolic content, silence, close, reset, each at several arrival times, and segmentations; at most 1000 bytes per reply."),
 'C16':(VF+" of every drawing operation; buffers compared bit by bit with the reference footprint clipped to canvas and bounding box, and clip state with what it was before (which carries the result over to every sequence of operations); run-time panic conditions as obligations","Canvas sizes, bounding boxes, coordinates, sizes, radii, characters and texts enumerated in a window well beyond the canvas (plus far away values); content, bitmap data, inversion and colours symbolic. Loop lengths beyond the window not analysed."),
 'C17':(VF+" of the exports, the colour setters and the three image/PNG routines: every exported byte and every channel of every pixel is derived as a function of the arbitrary data bytes, tabulated over all values of the bytes it depends on and compared with the reference; a dependency on any other byte is reported; run-time panic conditions as obligations","Widths enumerated (1-17 and selected ones up to 256, with several heights), data lengths around the declared size (empty, short, exact, longer), target sizes smaller/equal/larger; data, pixel and background colours arbitrary. The PNG encoder is trusted: the image handed to it is compared. Grey export judged for even widths only."),
 'C18':(VF+" of the renderer with arbitrary inversion: the picture is derived as a function of the flag and compared bit by bit with its complement, the active area, the requested size and the requested colours; panic conditions as obligations; centring and growth of the bar decided on the derived pictures; effect analysis (points-to roots over everything the renderer reaches) for state kept between calls, clock, random numbers, map order","States are enumerated partitions (mixed states covering all values of every field, every value of every single field on a plain state; thorough: 1500 groups of mixed states), tile sizes 0x0-256x64, all shrink and border values, 40 index colours, RGB colours at the boundaries; the effect rule holds for every state. Centring judged in proportional mode for one- and two-line texts that fit; two exceptions are listed findings."),
 'C19':("context-sensitive value-flow analysis of the high-level client's SSA together with a driver application, composed with an environment automaton (scripted panel, application, cancellation, model of net/time/sync/context/channels): handler calls, bytes for the panel and getters compared with what the messages demand on every schedule with a bounded number of deviations from the default one; happens-before race rule on every memory access","Event histories of one to several hundred messages with symbolic values, ids 1-8, bound or not, bursts whose handlers send 1, 3 or 14 messages each, both modes, several segmentations (also byte by byte); up to 1 deviation and 1 preemption (thorough 2) on the short histories; frames with an over-limit header or stalled/cut off at several offsets. Undecodable payloads of well-formed frames are not judged."),
 'C20':(VF+" of text rendering with enumerated text settings and arbitrary canvas content and colours: the set of pixels each text lights and the reported metrics are derived as constants, and the box, translation and enlargement relations decided between them","All 256 characters in three fonts and both width modes, alone at sizes up to 4x4 (quick: half of them) and next to others, some texts and long texts; cursor positions up to 300 right or down. Strings are composed of characters: an effect that needs a particular pair of characters outside the enumerated ones is not seen. Line feeds and enlarged spacing are listed findings."),
}
na={}
for i in range(1,21):
    p='C%02d'%i
    if p not in claims: na[p]="check under construction"
m={"version":1,"setup_cmd":"./run.sh build","checks":[],"not_applicable":[{"property":p,"reason":r} for p,r in na.items()]}
for p,(t,n) in sorted(claims.items()):
    m["checks"].append({"property":p,"quick_cmd":f"./run.sh {p} quick","thorough_cmd":f"./run.sh {p} thorough","technique":t,"level":"other","level_note":n})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
