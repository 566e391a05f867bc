"""Bounded exhaustive exploration of the real aiomisc code.

core    - deviation bounded stateless explorer, work units, replay artefacts
vloop   - asyncio event loop with virtual time whose scheduling is explored
vthread - controlled scheduler for real threads (locks, events, queues, time)
run     - command line: one property check, evidence, known findings
"""
