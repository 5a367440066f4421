LIMIT = 'Bounded random search with shrinking in simulated time; not a proof.'
prop('C07', 'TCP delivers every accepted message intact, in order and exactly once',
    'On a connection that stays up, every message that a send function accepted arrives at the peer exactly once, byte for byte, in the order in which the messages left the send buffer - whatever the send interface, the packer/unpacker pair, the sizes of buffers and messages, the number of concurrent senders and service threads, the way the kernel cuts transfers, and however often the handler refuses. Messages composed of several buffers arrive whole, messages sent before the connection exists arrive after it does, and messages of different connections never mix.',
    ['inputs', 'schedules', 'histories', 'configurations'], 'all send sequences on both ends, all interleavings of senders, service threads, transfers and refusals, all packer/unpacker pairs and receive/dispatch modes',
    TESTS_NOTE + 'over a loopback that hardly ever returns a short transfer, with one packer/unpacker pair and whatever interleaving happens.',
    ['include/tcp/socket.h', 'include/socket.h', 'include/container.h', 'include/ext/packer.h', 'include/ext/unpacker.h'],
    [('do_send_msg / send_handler', 'include/tcp/socket.h'), ('do_recv_msg / recv_handler', 'include/tcp/socket.h'), ('handle_msg / do_dispatch_msg', 'include/socket.h')],
    'Bounded random search in simulated time (one service thread, injected short transfers) and with real threads (sampled interleavings); two confirmed findings about messages composed of several buffers are listed as known.')
prop('C08', 'The send buffer honours its limit, order and priorities',
    'A send returns true and queues the message, or returns false and changes nothing; it returns false exactly when the buffer has reached its limit and overflow was not allowed (or the packer refused the message). Messages leave from the front only, prior ones in front of the waiting ones, the reported pending size is always the sum of what is waiting, popping returns the oldest waiting messages, and shrinking discards the oldest messages, no more than needed to free what calc_shrink_size asks for, and reports them.',
    ['inputs', 'histories', 'configurations'], 'all sequences of sends (19 interfaces, overflow and prior in every combination), pops and transmissions, all buffer limits and shrink answers',
    TESTS_NOTE + 'they never fill a send buffer, use prior or shrink.',
    ['include/socket.h', 'include/container.h', 'include/config.h'], [('direct_send_msg / do_direct_send_msg / shrink_send_buffer', 'include/socket.h'), ('queue::enqueue_front_, move_items_out_', 'include/container.h')],
    'Stateful model-based testing in simulated time, the model mirrors the send buffer at every step; not a proof.')
prop('C09', 'A slow consumer stops reception at the limit, and it resumes',
    'While the handler does not take messages, a socket buffers at most recv_buf_size plus what one read can bring, and then stops reading, so that the sender is throttled by TCP. Once there is room again, reception resumes within the resuming interval without any other event, and not a byte is lost. Under passive reception nothing is read that was not asked for.',
    ['inputs', 'schedules', 'configurations'], 'all buffer limits, intervals, message sizes and times at which the handler blocks and goes on',
    TESTS_NOTE + 'their handlers never block long enough to fill a receive buffer.',
    ['include/socket.h', 'include/tcp/socket.h'], [('handled_msg / check_receiving / TIMER_CHECK_RECV', 'include/socket.h')],
    LIMIT)
prop('C10', 'Messages are handled one at a time, in order, and refused ones offered again',
    'The messages of a socket are handed to on_msg_handle one at a time and in order, never two concurrently, however many service threads there are. A refused message is offered again, unchanged and before any other, no later than the handling interval plus scheduling delay, and no message is offered again once it was accepted. Batched dispatching keeps what was not taken.',
    ['inputs', 'schedules', 'histories'], 'all message sequences, refusal patterns, retry intervals and thread interleavings',
    TESTS_NOTE + 'their handlers never refuse a message.',
    ['include/socket.h'], [('do_dispatch_msg / TIMER_DISPATCH_MSG / dis_strand', 'include/socket.h')],
    'Bounded random search in simulated time plus sampled interleavings of real threads.')
prop('C20', 'Send notifications and statistics match what happened',
    'on_msg_send reports every message that left the send buffer exactly once and in order, on_all_msg_send comes when nothing is waiting and names the last message sent; the byte and message counters of a socket equal what it sent and received, and the time stamps are consistent.',
    ['inputs', 'histories', 'configurations'], 'all send sequences, notification modes and transfer patterns',
    TESTS_NOTE + 'they do not look at notifications or statistics.',
    ['include/tcp/socket.h', 'include/base.h'], [('send_handler', 'include/tcp/socket.h'), ('struct statistic', 'include/base.h')],
    LIMIT)
