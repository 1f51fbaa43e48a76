#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a check; everything else needs a reason."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = 'deterministic simulation with fault injection: seeded search over schedules and faults, '
CLAIMED = {
 'C01': (T + 'reference consensus rules as oracle', 'Seeded exploration, not exhaustive. Real client, state machine, chain and stores; simulated network, clock, disk faults. Trees are small (tens of blocks, some up to 4200), difficulty intervals 3-12 in custom-parameter worlds; regtest parameters elsewhere.'),
 'C02': (T + 'reference fork choice as oracle', 'Seeded exploration. Exact fork choice is compared after each acknowledged import; headers beyond the future-time limit may or may not count.'),
 'C03': (T + 'replay of the recorded event history against the chain read back', 'Seeded exploration. Compared after every step of the node.'),
 'C04': (T + 'crash-point and disk-fault injection in the real stores, durability model of completed writes as oracle', 'Seeded exploration of crash points (every write, truncate, sync, rename), torn and short writes, errors, full disk; process crash and power loss; regtest-parameter worlds.'),
 'C05': (T + 'filter-header chain of the simulated universe as oracle', 'Seeded exploration. Filter peers may lie in the progress part but then the mirror oracle only judges truthful worlds.'),
 'C09': (T + 'bounded-time liveness after faults stop', 'Seeded exploration. Bounds: 210 simulated minutes to settle, 5 minutes to follow a new block.'),
 'C06': (T + 'reference scan of the simulated universe as oracle over the event history', 'Seeded exploration. Chains of tens of blocks, up to 24 scripts, several scans per run, cache sizes down to a few hundred bytes, reorganisations, clean restarts, lossy and reordered replies.'),
 'C07': (T + 'authenticity of everything delivered judged against the simulated universe', 'Seeded exploration. Malicious peers forge, swap, tamper with and replay headers, filter headers, filters and blocks.'),
 'C08': (T + 'announcements, replies and status events judged against the simulated peers and chain', 'Seeded exploration. Up to 5 peers, up to 16 transactions; announcements must reach a connected relaying peer within 5 simulated minutes once faults stop.'),
 'C10': (T + 'session state machine over the wire traffic and events as oracle', 'Seeded exploration. Scripted handshakes in any order, odd version messages, connections to self, early messages, limits, lost and refused connections; handshake bounds in simulated time.'),
 'C11': (T + 'exact model of provable misbehaviour and of honest conduct over the wire traffic', 'Seeded exploration. Malicious peers use a fixed repertoire of some 40 violations at any protocol state plus lying replies; honest peers run under loss, delay, reordering and reorganisations. One known finding (honest peer punished after forged filter headers).'),
 'C12': (T + 'ping/pong bookkeeping over the wire traffic, bounded-time detection', 'Seeded exploration. Late, wrong, repeated and missing pongs, coalesced messages, timers that are late or rounded, clock changes.'),
 'C13': (T + 'twin runs with different fragmentation compared output by output; crash, hang, containment and progress checks', 'Seeded exploration. Mutated messages keep a valid frame or are undecodable; headers are never mutated into valid new work (cheap in regtest), filter headers not into plausible forgeries. Output order within one step is not compared.'),
 'C14': (T + 'model of what was offered, dialled, banned and saved against the peers file, dials and address replies', 'Seeded exploration. IPv4 and IPv6 gossip (routability of IPv6 is not judged), floods up to the group limits, crashes inside saving, power loss, disk errors. Books larger than the group limit are judged less strictly.'),
 'C15': (T + 'reference median model, probed with blocks at the very edge of the acceptable future', 'Seeded exploration. Up to some 250 sessions per run, clocks off by seconds to 2^63 s, reconnections, local clock jumps, restarts.'),
 'C17': (T + 'bounded-time reconnection after faults stop, redial delays measured', 'Seeded exploration. Bounds: configured peers within 65 simulated minutes, the outbound target within 30 minutes + 20 s per address of the book.'),
 'C16': (T + 'replies and locators recomputed from the active chain and the stored filter headers', 'Seeded exploration. Requests with arbitrary locators, stop blocks and ranges during reorganisations, with and without checkpoints, before and after the handshake.'),
 'C18': (T + 'the real poll reactor over a simulated kernel, with a service that checks every call against the kernel log', 'Seeded exploration. Linux semantics of socket, connect, accept, poll, recv, send, shutdown and the clocks are modelled; user threads act at system calls only; commands still queued when a shutdown is handled are not judged.'),
 'C19': (T + 'real user threads in lock-step with the node, their answers judged against the node\'s state at the point of execution and against the published history', 'Seeded exploration. Up to 3 user threads, preempted where they wait, read the clock or wake the node (not between arbitrary instructions); waits may be late by 20 simulated seconds plus the time for the events to go through.'),
 'C20': (T + 'the wallet program over the node, its database compared with a fold over the active chain', 'Seeded exploration. The wallet\'s main loop and SQLite database are real; one wallet per node, up to six addresses; faults on the wallet\'s files are process death in a write, failed reads, writes and syncs (no loss of unsynced writes). The terminal is a sink, the hardware device is not simulated.'),
 'C21': (T + 'bounded-time delivery after faults stop', 'Seeded exploration. Stalling, refusing and disconnecting peers; bounds in simulated minutes.'),
}
NOT = {}
checks = [{
  'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
  'technique': t, 'level': 'exploration', 'level_note': n, 'evidence_file': f'evidence/{i}.json'} for i, (t, n) in sorted(CLAIMED.items())]
na = [{'property': p['id'], 'reason': NOT.get(p['id'], 'no check built (yet)')} for p in props if p['id'] not in CLAIMED]
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks were needed: the Reactor trait, the Command/Event interface and libc symbol interposition inside the simulator binary are the seams', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
