#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says of their checks: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, note, technique=None, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))), note, technique))

TESTS_NOTE = 'The 28 tests run the demo programs end to end over loopback with a handful of fixed parameters; '

prop('C01', 'Length-prefixed framing returns exactly the messages that were sent',
    'Whatever sequence of messages a peer frames with a 2/4 byte length prefix, every length-prefixed unpacker (plain, flexible, replaceable, pooled, pointer and non-copy variants, with or without the header stripped) hands out exactly those messages, byte for byte, in order and once, however the byte stream is cut into reads. Heartbeats (empty bodies) are consumed where the unpacker documents it, nothing is handed out before its last byte has arrived or held back after it, and a reset makes the unpacker start afresh.',
    ['inputs', 'schedules', 'configurations'], 'all message sequences (0 bytes to the maximum), all ways of cutting the stream into reads, all length-prefixed unpackers and message buffer sizes',
    TESTS_NOTE + 'they see one packer/unpacker pair and whichever cuts the loopback happens to produce.',
    ['include/ext/unpacker.h', 'include/ext/ext.h'], [('unpacker::parse_msg / completion_condition', 'include/ext/unpacker.h'), ('flexible_unpacker, non_copy_unpacker', 'include/ext/unpacker.h')],
    'Bounded random search over structured streams with shrinking, against an independent encoder and a per-read model of what must have come out; four buffer configurations; not a proof.')
prop('C02', 'Delimited, fixed-length and raw unpackers return exactly what was sent',
    'With prefix/suffix framing every body that does not contain the suffix comes out exactly once, in order, with or without its delimiters as configured, heartbeats are swallowed, and it does so as soon as its last byte has arrived. The fixed-length unpacker yields consecutive blocks of the configured length, the stream unpacker yields the concatenation of everything received, and the datagram unpacker yields each datagram whole.',
    ['inputs', 'schedules', 'configurations'], 'all delimiters (empty prefix, repeating and overlapping patterns, NULs), bodies and ways of cutting the stream into reads',
    TESTS_NOTE + 'these unpackers are not exercised by them at all, save the datagram one.',
    ['include/ext/unpacker.h'], [('prefix_suffix_unpacker::peek_msg', 'include/ext/unpacker.h'), ('fixed_length_unpacker, stream_unpacker', 'include/ext/unpacker.h')],
    'Bounded random search over a four letter alphabet, where partial and overlapping delimiters are frequent, against a textual model; not a proof.')
prop('C03', 'Hostile bytes never corrupt memory, and a reset unpacker recovers',
    'No sequence of received bytes makes an unpacker read or write outside its buffers, loop for ever, or ask for a read of zero or too many bytes. Messages completed before a malformed one are still delivered, the malformed one is reported rather than delivered, and after the reset that the framework performs a well-formed stream is decoded correctly.',
    ['inputs', 'schedules'], 'all byte strings and all ways of cutting them into reads',
    TESTS_NOTE + 'they never send a malformed message.',
    ['include/ext/unpacker.h', 'include/tcp/socket.h'], [('length checks in parse_msg and completion_condition', 'include/ext/unpacker.h'), ('on_unpack_error and reset', 'include/tcp/socket.h')],
    'Random and mutation based fuzzing under AddressSanitizer with the completion-condition protocol checked at every read; not a proof.')
prop('C04', 'Packers frame every message as documented, or refuse it',
    'For every body, in any number of parts, a packer yields header plus concatenated parts with the documented header, raw_data() points at the body, heartbeats decode to an empty body, and native packing adds nothing. A body beyond the maximum (or beyond what the header can express) is refused rather than truncated, whatever the part lengths sum to.',
    ['inputs', 'configurations'], 'all part lengths, contents (NULL parts included), packers and length limits',
    TESTS_NOTE + 'they send a few fixed lengths through one packer.',
    ['include/ext/packer.h', 'include/base.h'], [('packer_helper::pack_header, msg_size_check', 'include/ext/packer.h')],
    'Bounded random search against an independent encoder, sizes concentrated around every limit; not a proof.')
prop('C05', 'The message buffer behaves as a byte string under every sequence of operations',
    'After any sequence of constructions, assignments, appends, sub-range copies, swaps, resizes, reserves, clears and formats - operands that are or overlap the buffer itself included - content and length equal those of an ordinary string put through the same operations. Requests beyond the maximum length fail with the documented exception and change nothing.',
    ['histories', 'inputs'], 'all operation sequences and operands, aliasing ones included',
    TESTS_NOTE + 'they only reach assignment and append of short texts.',
    ['include/ext/ext.h'], [('basic_buffer::append, assign, check_length', 'include/ext/ext.h')],
    'Stateful model-based testing (27 operations, up to 40 steps) against std::string under AddressSanitizer; not a proof.')

exec(open(os.path.join(V, 'lib', 'props_net.py')).read()) if os.path.exists(os.path.join(V, 'lib', 'props_net.py')) else None

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P: f.write(json.dumps(p) + '\n')
    na = dict(NA)
    checks = [dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique=t or 'property-based testing: generated cases against an executable model, with shrinking', level='exploration', level_note=n) for p, n, t in P if p['id'] not in na]
    m = dict(version=1, setup_cmd='python3 run.py tools', checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in NA])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')

if __name__ == '__main__': main()
