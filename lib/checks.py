# Which programs are built from /repo's tree, and which of their tests decide which property.
BUILDS = {}


def build(name, src, defs=(), **kw):
    BUILDS[name] = dict(name=name, src=src, defs=list(defs), **kw)
    return name


CHECKS = {}

# ---- codecs -----------------------------------------------------------------------------------------------------
build('codec', 'codec.cpp')
build('codec-64', 'codec.cpp', ['ST_ASIO_MSG_BUFFER_SIZE=64'])
build('codec-huge', 'codec.cpp', ['ST_ASIO_HUGE_MSG', 'ST_ASIO_MSG_BUFFER_SIZE=20000'])
build('codec-over', 'codec.cpp', ['ST_ASIO_MSG_BUFFER_SIZE=70000', 'ST_ASIO_SCATTERED_RECV_BUFFER', 'ST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>'])
CODECS = ['codec', 'codec-64', 'codec-huge', 'codec-over']
CHUNK_NOTE = 'the harness plays boost::asio::async_read with a completion condition, as tcp::socket_base uses it; the real sockets are exercised by the delivery properties'


def codec_jobs(tests):
    return [dict(build=b, workers=2, tests=tests) for b in CODECS]


CHECKS['C01'] = dict(jobs=codec_jobs(['lp_roundtrip']), quick=22, thorough=400,
    rule='a case is one of 8 length-prefixed unpackers (stripped or not), a stream of up to 14 frames (bodies 0 bytes to the maximum, heartbeats), a way to cut it into reads and, in a third of the cases, a reset in the middle followed by another stream; non-trivial: at least two frames and two reads; four configurations (message buffer 64, 4000, 20000 with 4 byte heads, 70000 with scattered buffers)',
    assumptions=[CHUNK_NOTE])
CHECKS['C02'] = dict(jobs=codec_jobs(['prefix_suffix', 'fixed_and_stream']), quick=22, thorough=400,
    rule='a case is a prefix/suffix pair over a four letter alphabet (including NUL) with bodies over the same alphabet, heartbeats, optionally a wrong prefix or a message without end; or a fixed-length, stream or datagram sequence; and a way to cut it into reads; non-trivial: at least two messages and two reads (datagrams: two)',
    assumptions=[CHUNK_NOTE, 'a body does not contain the suffix, as the protocol requires'])
CHECKS['C03'] = dict(jobs=codec_jobs(['lp_hostile', 'any_bytes']), quick=22, thorough=400,
    rule='a case is a valid stream followed by a frame with an impossible length or by noise, cut into reads, then a second valid stream after the reset; or arbitrary bytes into any unpacker that goes on after errors; non-trivial: a malformed frame behind at least one valid one, or at least one error survived',
    assumptions=[CHUNK_NOTE, 'memory errors are those AddressSanitizer sees'])
CHECKS['C04'] = dict(jobs=codec_jobs(['packers', 'prefix_suffix_packers']), quick=20, thorough=300,
    rule='a case is one of 7 packers and a body of 0 to limit+40 bytes in up to 5 parts (NULL parts and overflowing lengths among them), packed through every overload and compared with an independent encoder; non-trivial: several parts and a non-empty body',
    assumptions=[])
CHECKS['C05'] = dict(jobs=[dict(build='codec', workers=8, tests=['basic_buffer_model'])], quick=20, thorough=300,
    rule='a case is a history of up to 40 operations (27 kinds, self-assignment and self-append included) over up to 6 buffers, compared after every step with std::string; non-trivial: at least four mutating operations',
    assumptions=['memory errors are those AddressSanitizer sees', 'requests beyond max_size are made, requests near 4 GB that would succeed are not'])

# ---- TCP sockets ------------------------------------------------------------------------------------------------
# one packer/unpacker pair (NET_TRAIT, see harness/traits.h) and one set of macros per program
def defs(s):
    return ['ST_ASIO_' + x for x in s.split()]


B = defs('DISPATCH_BATCH_MSG DELAY_CLOSE=1 WANT_MSG_SEND_NOTIFY WANT_ALL_MSG_SEND_NOTIFY')
C = defs('SYNC_DISPATCH')
D = defs('SHRINK_SEND_BUFFER WANT_BATCH_MSG_SEND_NOTIFY FULL_STATISTIC CLEAR_OBJECT_INTERVAL=1')
TCP_DEFS = {0: [], 1: B, 2: D, 3: C, 4: C + defs('PASSIVE_RECV'), 5: defs('PASSIVE_RECV WANT_ALL_MSG_SEND_NOTIFY'), 6: B, 7: D + defs('WANT_ALL_MSG_SEND_NOTIFY')}
for i in TCP_DEFS:
    build('tcp%d' % i, 'net_tcp.cpp', ['ST_ASIO_MSG_BUFFER_SIZE=500', 'NET_TRAIT=%d' % i] + TCP_DEFS[i], flags=['-rdynamic'])


# the same with a scheduling point at the entry and exit of every function of the library
POINTS = ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/,harness/']
for i in (0, 1, 2, 4, 5):
    build('tcpmt%d' % i, 'net_tcp.cpp', ['ST_ASIO_MSG_BUFFER_SIZE=500', 'NET_TRAIT=%d' % i] + TCP_DEFS[i], flags=['-rdynamic'] + POINTS)


def mt_jobs(ids, tests, workers=1, **kw):
    return [dict(build='tcpmt%d' % i, workers=workers, tests=tests, **kw) for i in ids]


def tcp_jobs(ids, tests, workers=1, **kw):
    return [dict(build='tcp%d' % i, workers=workers, tests=tests, **kw) for i in ids]


SIM_NOTE = 'one service thread in simulated time: time only passes when the program would block; the kernel\'s loopback and boost::asio are real; short transfers and spurious EAGAIN are injected below boost::asio'
MT_NOTE = 'the threads test runs the real scheduler with injected yields and pauses around system calls and at the entry and exit of every function of the library; it samples interleavings'

CHECKS['C07'] = dict(jobs=tcp_jobs([0, 1, 2, 3, 4, 5, 6, 7], ['delivery', 'parts']) + mt_jobs([0, 1, 2, 5], ['threads']), quick=35, thorough=500,
    rule='a case is 1-3 links with generated buffer limits, intervals and fault plan and up to 60 operations (sends through 19 interfaces by both ends, bursts, prior messages, heartbeats, popping of unsent messages, refusing and echoing handlers), in 8 programs that differ in packer, unpacker and macros; or up to 3 links with up to 3 sending threads per end and 2-4 service threads; non-trivial: at least five messages of which some crossed a refusal, a full buffer, a fault or an ordering decision (threads: at least two concurrent senders and 20 messages)',
    assumptions=[SIM_NOTE, MT_NOTE, 'messages refused in on_msg are documented to be out of order with what on_msg gets next, so they are not generated', 'stream_unpacker has no message boundaries, it is compared as a byte stream'])
CHECKS['C08'] = dict(jobs=tcp_jobs([0, 1, 2, 4, 5], ['send_buffer'], 2), quick=30, thorough=400,
    rule='as C07, and the content of the send buffer is mirrored by a model before and after every send, pop and notification; non-trivial: as C07',
    assumptions=[SIM_NOTE])
CHECKS['C09'] = dict(jobs=tcp_jobs([0, 1, 4, 7], ['flow'], 2), quick=40, thorough=400,
    rule='a case blocks the handler of one end for a while, lets the other end send, and watches the receive buffer at every step; non-trivial: reception was suspended at least once (passive reception: more than one pull)',
    assumptions=[SIM_NOTE])
CHECKS['C10'] = dict(jobs=tcp_jobs([0, 1, 2, 5], ['dispatch']) + mt_jobs([0, 1, 4, 5], ['threads']), quick=35, thorough=400,
    rule='a case is a sequence of messages, how often each is refused before it is taken, and the retry interval; or the threads test of C07 (no two messages of a socket are ever handled at the same time); non-trivial: at least two refusals (threads: as C07)',
    assumptions=[SIM_NOTE, MT_NOTE, 'a message that comes in after a refusal may bring the next offer forward, so only the number of early offers is bounded'])
CHECKS['C20'] = dict(jobs=tcp_jobs([1, 2, 5, 7], ['accounting'], 2), quick=30, thorough=400,
    rule='as C07 with the send notifications and statistics of every socket compared with what left its send buffer and what arrived; non-trivial: as C07',
    assumptions=[SIM_NOTE])
