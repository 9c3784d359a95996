#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SIM = ['goroutines of the gateway run in a testing/synctest bubble of the Go 1.27 runtime, whose clock and blocking detection are trusted',
       'package net is replaced by mc/vnet in the instrumented copy (an in-memory listener and connections with the semantics of TCP streams, deadlines and resets); package sync by mc/vsync (same semantics, blocking visible to the bubble)']
REF = ['the independent wire implementation mc/ref, which is compared with published packets and checksum test values on every run of C10']
LOOP = ['servers and programs run in real time over the loopback network; a violation is reported only when most of three repetitions show it']

C = {}


def c(id, technique, rule, note, assumptions, **kw):
    C[id] = dict(technique=technique, rule=rule, note=note, assumptions=assumptions, level='model_checking', **kw)


gate = dict(pkg='gate', instr='sim')
enum = 'explicit enumeration on the real code'

c('C01', 'bounded-exhaustive enumeration of byte streams executed on the real gateway and decoder under a controlled network and clock',
  'every prefix of 35 sample packets; every byte string up to 2 (thorough 3) bytes; every header length with and without routing by frame lengths around the data present, up to 65535; every single-byte substitution in every sample with both checksums repaired, and adjacent pairs (quick: boundary values); every subrecord type with every body length up to a limit in several fills; lying record and subrecord lengths nested; every record flag byte with every amount of data. A state is the pair of library verdict and gateway reaction; a case is non-trivial when its bytes differ from every other case.',
  'Every enumerated stream is executed on the gateway built from /repo: no panic, no hang (virtual-time quiescence), connection answered or closed, a following good packet on a new connection served. Bounded by the enumerated shapes, not by all byte strings.', SIM + REF, **gate)
c('C02', 'exhaustive enumeration of segmentations and disconnect points on the real gateway under a scripted network',
  'streams of several packets of all kinds; every single and every pair of cut positions, every equal segment size, one segment per byte, with and without pauses below the idle limit; every prefix ending in close, reset or silence, and with failing writes. Compared with the replies and saves the reference model derives from the byte stream alone.',
  'All 1- and 2-cut segmentations and all disconnect points of the sample streams, on the real code.', SIM + REF, **gate)
c('C03', 'explicit-state enumeration of packet histories against a reference model of the reply protocol, each trace executed on the real gateway',
  'every sequence up to length 5 (thorough 6) over the alphabet of message kinds; every pair of kinds at identifier extremes; every packet identifier and record number 0..65535; every number of records up to a full packet (3120); every service type; histories of 1500 (thorough 66000) packets on one connection. The model maps a history to the expected replies; states are model states after each packet.',
  'The model is bound to the code by executing every enumerated history on the gateway built from /repo and comparing all bytes written.', SIM + REF, **gate)
c('C04', 'explicit-state enumeration of packet histories against a reference model, each trace executed on the real gateway',
  'sequences up to length 4 (thorough 5) over requesting and merely similar packets, every position and multiplicity of the requesting subrecord, every packet identifier and record number, all identity flag bytes, all pairs of name and password lengths.',
  'Every enumerated history is executed on the real gateway; every reply is parsed by the independent wire implementation and decoded by the library.', SIM + REF, **gate)
c('C05', 'explicit enumeration of packet contents against a reference model of the export, each executed on the real gateway',
  'every sequence of subrecord kinds up to length 4 (thorough 5) in one record and split over two; triples of packets for leakage; positions by every flag byte, speed, direction, every coordinate bit and edge, times; sensors by presence masks and value bits, equal readings and equal positions repeated, positions that differ in every subset of their fields, every field of the position at its ends and middle at once with the others at theirs, two kinds of position at any two places, valid mixed with invalid ones; liquid sensors by every flag combination; counter pairs; record header forms; transport header forms; 1..n positions.',
  'The expected export is computed from typed values by a model that shares nothing with libs/egts. Unspecified and not judged: counter 111 without 110 or spread over several records or pairs.', SIM + REF + ['DIRH of the position flags is the top bit of the course as exported by the pinned tests'], **gate)
c('C06', 'fault enumeration: every outcome of every save over packet histories, with save/reply order monitored on the real gateway',
  'packets with and without telemetry in sequences up to length 4 (thorough 5) plus retransmission, 0 to 3 stores, every success/failure assignment to every save; every kind of error; packets of every number of positions; runs of up to 700 packets on one connection whose saves fail in long runs; every (store, packet) at which a save is held, for up to 49 hours and then succeeding or failing, while nothing may be acknowledged.',
  'All fault assignments within the bound are executed on the real gateway and repository; the order of store calls and bytes written is judged.', SIM + REF, **gate)
c('C07', 'fault enumeration on the real repository and gateway',
  '0 to 7 (thorough 8) stores, every subset failing in each of two saves, stores added between the saves at every place; every kind of error in every store; every outcome history of one store over 14 (thorough 17), two over 7 (9) and three over 5 (6) saves; the same through the gateway over one and several connections.',
  'All assignments within the bound on the real code, calls recorded by scripted stores.', SIM, **gate)
c('C08', 'timed-schedule enumeration in virtual time on the real gateway',
  'for limits of 1 s and 10 s (thorough up to an hour): silence, close or reset after every prefix of a stream, sent at once after three gaps and byte by byte at the longest pause allowed; every schedule of up to 3 (thorough 4) chunks of 6 sizes with 3 gaps; a silent connection beside an active and a late one. Deadlines and timers run on the virtual clock of the bubble.',
  'The closing time is exact virtual time; a slack of half the limit is allowed above it, none below.', SIM, **gate)
c('C09', 'exhaustive bounded enumeration of codec values (per field all values or all byte values over two backgrounds) as round-trip state space',
  'every field of every layout over its whole range (16 bits) or every byte value at every place over two backgrounds; every flag combination; all header forms; all sequences of 2 (thorough 3) subrecords of all types; decode-encode and encode-decode. A state is an outcome class per layout and field.',
  'Exhaustive per field and over flag combinations, not over the product of all fields.', REF + ['outside the domain: texts longer than their field, flag texts of the wrong width, sensor numbers above 7, wire course above 127 with DIRH set'], pkg='codec')
c('C10', 'exhaustive bounded enumeration of codec values compared with an independent reference implementation',
  'the same space as C09; wire bytes made by mc/ref are decoded to the values put in, and what the library encodes is compared byte by byte; published packets and checksum vectors tie mc/ref to the standard.',
  'Differential: library against independent layout on every enumerated value.', REF, pkg='codec')
c('C11', 'exhaustive enumeration of truncations and error patterns on decoder and gateway',
  'every truncation, every burst of up to 8 bits in the header and up to 12 (thorough 16) bits in body and checksum, every two-bit error in samples up to 120 bytes (thorough: all), the same kinds of error at the ends and spread over packets of every size class from 120 to 65535 bytes, every wrong header checksum and body checksum value, every packet type byte; every header and record form and every packet identifier corrupted in the same ways, data and response packets; corrupted packets between good ones.',
  'Complete for the listed error classes over the sample packets, on real decoder and gateway.', SIM + REF, **gate)
c('C12', 'exhaustive enumeration of length fields on decoder and gateway',
  'every value of every length field (all 65536 for small samples, near and far values otherwise), every shortened subrecord of every type by flags and body length, frame bodies ended at every byte with matching header, every header length, nested in data and response packets.',
  'Judged by the independent layout; nothing of such a packet may be exported or confirmed.', SIM + REF, **gate)
c('C13', 'systematic concurrency exploration: stateless search over all schedules within a deviation bound at statement granularity, plus all segment interleavings and stall placements, on the real gateway',
  'every interleaving of the segments of two connections (4 segments each) and three (2 each) over pairs of message kinds; every placement of stalls (silent peer, peer that does not read, held save) against every continuation, with peers at one address and at many, IPv4 and IPv6; up to 2100 connections at once, stalled at every kind of place, also within packets of the greatest size; packets of two connections, interleaved in every order of three, that agree in any subset of 11 groups of fields (identifiers, times, places, sensors and so on); every schedule of two or three handlers with at most one (thorough: two in small scenarios) deviations from the default schedule, at every statement of server, storage and libs; every pair of message kinds on two connections at once in the program built with the race detector.',
  'Every schedule is executed on the instrumented copy of the real code by a deterministic scheduler; threads are preempted between statements; accesses to memory that are not ordered at all are found by executing the pairs of kinds under the race detector of Go, whose judgement does not depend on the order met.', SIM + REF, pkg='gate', instr='sched', race=True)
c('C14', 'explicit enumeration of accept/stop event sequences on the real gateway',
  'every sequence of up to 5 (thorough 6) events (connection with a packet, with half a packet, five kinds of accept failure, stop), one by one and all at once; runs of up to 1000 failures; up to three stops while up to four saves are in progress; one or two stops as threads of their own against the accept loop and the handlers: every schedule with up to two (thorough three) deviations at every statement.',
  'Real accept loop on the in-memory listener; spinning is detected by the virtual clock and an accept-call budget; the schedules preempt between statements only. A stop before Run has begun to accept is not judged.', SIM, pkg='gate', instr='sched')
c('C15', 'exhaustive enumeration of configurations, storage states and section orders on the real configuration code, storage loader and receiver program',
  'product of hosts, ports, limits, levels, storage sections and quoting; every order of the keys in 72 styles; 100 values that a reader could take for something else, in every place and style; a list of malformed and ill-typed files at every line; every subset of the shipped example\'s sections; every assignment of {absent, valid, empty, unusable} to the six kinds with and without an unknown section, map iteration orders controlled (all orders up to 3 sections, rotations and reversals beyond; thorough: all up to 5); the receiver program by storages and log levels, listening addresses, idle limits, malformed files.',
  'Ranges over maps in /repo are rewritten in the checked copy so that the order is chosen, not random; scripted servers of each kind tell which storages are in use.', LOOP + ['values of conn_ttl are whole numbers of seconds within the range of a duration; bare IPv6 hosts are not judged'],
  pkg='conf', instr='maps', bins=['cli/receiver'], realtime=True, confirm=3)
c('C16', 'fault enumeration: every history of server answers against the real connectors and scripted protocol servers',
  'every history of up to 4 (thorough 5) saves over {accept, reject, drop, drop once, cut before, down}; every way to refuse that the protocol of the server has (error codes and texts, with and without a close) by every sequence of up to 3 (thorough 5) accepted and refused saves; contents by size class and byte; settings and credentials; every subset of missing settings and unusable values; servers whose answer is lost or that stay mute during the start; a connection that breaks after every byte that passes in either direction, from the handshake to the last save, and for good or once; answers, positive and negative, that come 1.6 and 3.4 seconds late; every sequence of up to 4 (thorough 6) saves and things a server says on its own (heartbeats, notices, also ahead of its answers; dismissals by it); every history of up to 3 (thorough 4) saves while the server refuses the connections at some step of setting one up, and when it stops to; two and three concurrent saves with every answer order and outcome; the concurrent saves in a program built with the race detector (races within a library are counted, not judged).',
  'The servers (redis, nats, nsq, postgresql, rabbitmq, tarantool) are written for this check from the protocols and accept only well-formed dialogue; a save over a connection that breaks in mid-dialogue may have been delivered although it is reported as failed, at most once.',
  LOOP + ['a server that keeps silent does so for 4.5 (thorough 12) seconds and then closes'], pkg='stores', race=True, realtime=True, confirm=3)
c('C20', 'fault enumeration: every sequence of outages against the real connectors and scripted protocol servers',
  'every sequence of up to 2 (thorough 3) outages over {connections cut, server down, server that accepts and closes, record dropped with the connection, refused with a close, taken without an answer}, each without and with saves during it, with one and three savers and after none or one save; each outage for 0 to 6 seconds by four paces of saves, one and four savers, none to five saves before; eight outages in a row; outages of 135 (thorough 400) seconds; a connection that breaks once after every fifth (thorough: every) byte of the dialogue in either direction.',
  'After the return of the server every saver has to succeed within 7 seconds and from then on; every record reported as saved is stored exactly once, every other at most once; no save takes longer than 4 seconds.',
  LOOP + ['the tarantool connector is configured with enough reconnection attempts (max_recons) for the outage', 'servers that neither answer nor close are not enumerated'], pkg='stores', realtime=True, confirm=3, case_max=500, deadline={'quick': 300, 'thorough': 700})
c('C21', 'explicit enumeration of connection histories on the real gateway, repeated until any growth with their number shows',
  'every sequence of up to 2 (thorough 3) kinds of message on a connection, ended in each of 10 ways, with a store that works, fails or is absent and with writes that succeed, fail or block; the same happenings on one long connection; packets of the greatest size; accept failures of every kind. Each is repeated in rounds; goroutines and reachable heap are compared between rounds. A state is a history with its end.',
  'A residue counts when it grows with the repetitions in four consecutive rounds (8 bytes a repetition, or goroutines); caches and pools that level off are allowed.', SIM + ['what the garbage collector of Go reports as reachable is what is kept'], **gate)
c('C22', 'fault enumeration: every sequence of happenings repeated in rounds against the real connectors and scripted protocol servers, connections counted by the servers',
  'every sequence of up to 2 happenings over {accept, reject, drop, lose, cut, down, slam, refused at some step of the set-up, dismissed by the server} as the round that is repeated, with one and several savers; every refusal, dismissal and refused set-up; 1000 (thorough 8000) saves of every outcome for memory; every way a start can fail; closing after each history, during the last happening and at once in it. A state is a connector with its server after a round.',
  'Open connections as seen by the server and goroutines of the program must not grow with rounds; Close neither crashes nor blocks, after it none is left and none is made anew; a failed start leaves no connection open.',
  LOOP + ['goroutines are not judged after a failed start: the client libraries keep some of their own', 'goroutines that the AMQP library itself leaves behind are a known finding and not counted elsewhere'], pkg='stores', realtime=True, confirm=3, shards=32, case_max=120, deadline={'quick': 400, 'thorough': 700})
c('C17', 'exhaustive enumeration of replies, segmentations and arguments against the real packet-gen program',
  'every assignment of statuses to the confirmations of up to three records; every byte of the answer replaced with and without repaired checksums; every truncation; answers cut at every one and two places; sequences of packets; timing of answers around the limit, no and very long limits; each argument over its classes; the server by name, IPv4 and IPv6 address; responses in every form of the record header and of every service type; every subset of options; refused values.',
  'The program built from /repo runs as a process for every case; the oracle is the independent wire implementation.', LOOP + REF, pkg='gen', bins=['cli/packet-gen'], realtime=True, confirm=3)
c('C18', 'exhaustive bounded enumeration of export records, parsed back by an independent strict JSON reader',
  'every value class of every field, every pair of values of every two fields, list sizes up to 4096, absent against empty lists, numbers that JSON has no form for (NaN, infinities), all upper 16 (thorough 22) bits of coordinates, every character; records made by the gateway over dates and time zones; the log store over every sequence of up to 6 equal and different records.',
  'Real serialisation code; the reader keeps number texts and refuses duplicate keys.', SIM + ['text is valid UTF-8'], **gate)
c('C19', 'exhaustive bounded enumeration of encoder values with repetition, mutation and size limits',
  'every value of the C09 space encoded repeatedly and with other encodings in between; every value encoded, given other content or header form, and encoded again; every supported kind with its type unset; content of no kind; every malformed flag text up to a length; every kind of section at and around 65535 bytes.',
  'Real encoder; produced bytes are parsed by the independent implementation.', REF, pkg='codec')

c('C23', 'exhaustive bounded enumeration of decodings and of histories of decodings on the real decoder, with accesses at the same time judged by the race detector',
  'every value of the C09 space, subrecords and packets, decoded twice, with other decodings (also failing ones) in between and with the input overwritten afterwards; every sequence of up to 3 (thorough 4) decodings of 13 packets, good and damaged in every way, through one reused buffer; values made by other decodings overwritten field by field; packets equal in length and checksum and different in content; every pair of subrecord kinds and packets decoded and encoded at the same time in a program built with the race detector. A state is a distinct input, or the result of a decoding in a history.',
  'Each decoded value is compared with that of an undisturbed decoding of the same bytes. Decoding into a value that was decoded into before is not judged.', REF + ['accesses at the same time are judged by the race detector of Go, whose verdict does not depend on the order met'], pkg='codec', race=True)

json.dump({k: {kk: v for kk, v in d.items() if kk not in ('technique', 'note')} for k, d in sorted(C.items())}, open(V + '/checks.json', 'w'), indent=1, ensure_ascii=False)
M = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'checks': [{'property': k, 'quick_cmd': 'python3 run.py %s --tier quick' % k, 'thorough_cmd': 'python3 run.py %s --tier thorough' % k, 'technique': 'model checking: ' + d['technique'],
                 'level': d['level'], 'level_note': d['note']} for k, d in sorted(C.items())],
     'not_applicable': [],
     'notes': 'No hooks in /repo: the checks instrument a build overlay of the working tree (mc/cmd/instr). Commits in /repo are "fix:" commits only; see known_findings.json and DESIGN.md.'}
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
