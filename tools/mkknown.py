#!/usr/bin/env python3
"""Writes known_findings.txt (fixed entries suppress nothing)."""
import subprocess, os
M = """55175ab P08 a scan that resumed after more input was read forgot that it was skipping unmatched text
55175ab P10 token texts depended on where the input buffer had been refilled
bc77afa P10 token positions at a buffer boundary were not relocated when the input grew
7fa3847 P10 the consumed position was one past the last consumed character, so the reader overwrote or kept too much
84cd40d P13 a reset parser still used the start of the next log event found before the reset
52aaf8b P12 the buffer parser returned a wrong offset for an incomplete event without a timestamp
47ce9e6 P14 a deep copy of an event without a timestamp moved the tokens by one character
620bf21 P06 text after the first block of a schema string was read from its start again
1cd589d P03 the complement of an empty set was empty instead of every character
c3bafcb P01 (a*|b*) also accepted texts that change the alternative, such as ab
2d296d8 P01 the empty pattern matched nothing inside a larger pattern
070c9fb P06 a{0} was read as a*
070c9fb P01 repeating a pattern zero times matched the pattern once
a15868c P02 the ids of a token were ordered by the address of the accepting states
a15868c P09 the first type of a token depended on the addresses of the accepting states
7fe3429 P12 the offset after an event was not the start of the next one, or the start position was stale after a reset
e21bfa3 P20 the tree lost balance, popping lost intervals, finding with no overlap and pop_min used a null pointer
5b13709 P14 the first character of a variable without a delimiter appeared in the logtype
1f58de3 P14 an event with text after its only newline was not multiline
3c09515 P01 the optional repetition of (ab){0,2} could skip into the middle of the operand
3874b8f P11 an empty line was merged with the following event
5421161 P09 text that starts like a first timestamp became static text up to the next delimiter although a rule matches in it
0f13b47 P06 the storage of the schema parser grew without bound and was overrun by long schemas
5370ee5 P06 a group in the delimiters rule dereferenced a null pointer
7866d0e P06 a reversed range aborted in an assertion, and [a-a] was rejected
41ed93d P07 a variable with a negated group was rejected when no delimiter can match it, because the group contains the start of the file
b2fa225 P12 a character of the empty end token was read, one byte behind the buffer of the caller"""
out = []
for l in M.split("\n"):
    h, p, w = l.split(" ", 2)
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True, check=True).stdout.strip()
    out.append("fixed: property=%s %s %s" % (p, full, w))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w").write("\n".join(out) + "\n")
