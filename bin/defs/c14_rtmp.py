prop('C14',
     title='RTMP: chunks, messages and AMF values arrive as they were sent',
     statement='Whatever the interleaving of chunk streams, chunk header formats, chunk size changes and read boundaries, each RTMP message is delivered once, when complete, with exactly the payload, type, stream id and timestamp that was sent (messages of an aggregate each on their own); a chunk stream id or message size out of range closes the session, the received bytes are acknowledged once per window, and control messages have exactly the effect their bytes ask for. Messages prepared for sending parse back to themselves and leave the out queue in order, each once, a full queue refusing further messages. AMF values are read and written exactly across buffer boundaries, with strings cut to their destination and unknown members skipped; truncated, malformed or endlessly nested data is refused; the bit and chain readers return the bits and bytes in order, never beyond the data.',
     over=['inputs', 'histories'],
     qtext='every payload over a table of message sequences, chunk interleavings and read boundaries (1 byte to everything at once, every odd first cut)',
     why='the tests feed RTMP through a real encoder and read boundaries that the kernel picks; header formats, extended timestamps, chunk size changes in mid-message and split AMF values are not exercised',
     files=['nginx-rtmp-module/src/ngx_rtmp_handler.c', 'nginx-rtmp-module/src/ngx_rtmp_receive.c', 'nginx-rtmp-module/src/ngx_rtmp_shared.c',
            'nginx-rtmp-module/src/ngx_rtmp_amf.c', 'nginx-rtmp-module/src/ngx_rtmp_bitop.c', 'nginx-rtmp-module/src/ngx_rtmp_chain_reader.c'],
     mechanism=[('chunks to messages', 'nginx-rtmp-module/src/ngx_rtmp_handler.c:ngx_rtmp_recv'),
                ('chunk size', 'nginx-rtmp-module/src/ngx_rtmp_handler.c:ngx_rtmp_set_chunk_size'),
                ('messages to chunks', 'nginx-rtmp-module/src/ngx_rtmp_handler.c:ngx_rtmp_prepare_message'),
                ('out queue', 'nginx-rtmp-module/src/ngx_rtmp_handler.c:ngx_rtmp_send'),
                ('aggregates', 'nginx-rtmp-module/src/ngx_rtmp_receive.c:ngx_rtmp_aggregate_message_handler'),
                ('AMF', 'nginx-rtmp-module/src/ngx_rtmp_amf.c:ngx_rtmp_amf_read')],
     note='Bounded: concrete sequences of messages and cuts, arbitrary contents, against a sender written from the RTMP specification. Left out: handshake, the heuristic for extended timestamps on type 3 chunks of interleaved streams, Exp-Golomb codes of more than 32 leading zeros, the codec, live and command modules.')
_U = ['VP_LOOP_MEMCPY']
def _o(n): return ['--max-field-sensitivity-array-size', str(n)]
_R = dict(unwind=700, object_bits=12, cbmc=_o(700))
_RF = ['ngx_rtmp_recv', 'ngx_rtmp_receive_message', 'ngx_rtmp_alloc_in_buf']
unit('C14', 'recv', 'rtmp.c', 'h_recv', _RF, [], defs=_U + ['U_RECV'], cost=100, bounded='3 sequences of messages, 7 ways to cut them, any payload', **_R)
for _i in range(3):
    unit('C14', 'recv_cuts_%d' % _i, 'rtmp.c', 'h_recv', _RF, [], defs=_U + ['U_RECV', 'CONC', 'CUTS=%d' % _i], cost=180,
         bounded='one sequence of messages, the first read of 1, 3, ... 33 bytes', **_R)
unit('C14', 'recv_wide', 'rtmp.c', 'h_wide', _RF, [], defs=_U + ['U_WIDE', 'CONC', 'STREAMS=600'], cost=40, bounded='chunk stream ids of two and three bytes', **_R)
unit('C14', 'recv_stamp', 'rtmp.c', 'h_stamp', _RF, [], defs=_U + ['U_STAMP', 'CONC'], cost=90, bounded='extended timestamps and deltas, with and without type 3 repetition, 6 ways to cut', **_R)
unit('C14', 'recv_size', 'rtmp.c', 'h_size', _RF + ['ngx_rtmp_set_chunk_size', 'ngx_rtmp_finalize_set_chunk_size'], [], defs=_U + ['U_SIZE', 'CONC'], cost=110,
     bounded='the chunk size changes (16 to 8, 15, 32, 40) with two messages under way, 5 ways to cut', **_R)
unit('C14', 'recv_refuse', 'rtmp.c', 'h_refuse', _RF, [], defs=_U + ['U_REFUSE', 'CONC'], cost=20, bounded='10 sequences', **_R)
unit('C14', 'prepare', 'rtmp.c', 'h_prepare', ['ngx_rtmp_prepare_message'], [], defs=_U + ['U_PREPARE'], cost=120, bounded='18 messages, any payload', **_R)
unit('C14', 'prepare_wide', 'rtmp.c', 'h_prepare', ['ngx_rtmp_prepare_message'], [], defs=_U + ['U_PREPARE', 'STREAMS=600'], cost=70, bounded='5 messages with chunk stream ids of two and three bytes, any payload', **_R)
unit('C14', 'send', 'rtmp.c', 'h_send', ['ngx_rtmp_send_message', 'ngx_rtmp_send', 'ngx_rtmp_free_shared_chain'], [], defs=_U + ['U_SEND'], cost=30, bounded='queues of 6 and 8 slots, 4 messages in pieces of 1, 7 and 100 bytes, any payload', **_R)
unit('C14', 'protocol', 'rtmp_msg.c', 'h_protocol', ['ngx_rtmp_protocol_message_handler'], [], defs=_U + ['U_PROTOCOL'], unwind=50, object_bits=12, bounded='messages of up to 16 bytes (the handler reads 5), any content and type')
unit('C14', 'user', 'rtmp_msg.c', 'h_user', ['ngx_rtmp_user_message_handler'], [], defs=_U + ['U_USER'], unwind=50, object_bits=12, bounded='messages of up to 16 bytes (the handler reads 10), any content')
unit('C14', 'aggregate', 'rtmp_msg.c', 'h_aggregate', ['ngx_rtmp_aggregate_message_handler', 'ngx_rtmp_fetch_uint32', 'ngx_rtmp_fetch'], [], defs=_U + ['U_AGGREGATE'], unwind=130, object_bits=12, cbmc=_o(130), cost=150,
     bounded='aggregates of up to 3 messages, 6 ways to cut them, whole and cut short, any timestamps and stream ids')
_W = [('nginx-rtmp-module/src/ngx_rtmp_amf.c', [(r'(uint(?:16|32)_t\s+len);', r'\1 = 0;'), (r'char(\s+)name\[maxlen\];', r'char\1name[6];')])]
for _n, _h, _d, _f in [('amf_read', 'h_read', ['U_READ', 'BUFS=260', 'WIRE=260'], ['ngx_rtmp_amf_read', 'ngx_rtmp_amf_read_object', 'ngx_rtmp_amf_read_array', 'ngx_rtmp_amf_get']),
                       ('amf_refuse', 'h_refuse', ['U_REFUSE', 'BUFS=24', 'WIRE=60'], ['ngx_rtmp_amf_read', 'ngx_rtmp_amf_read_object', 'ngx_rtmp_amf_get']),
                       ('amf_deep', 'h_deep', ['U_DEEP'], ['ngx_rtmp_amf_read']),
                       ('amf_write', 'h_write', ['U_WRITE', 'BUFS=100'], ['ngx_rtmp_amf_write', 'ngx_rtmp_amf_write_object', 'ngx_rtmp_amf_write_array', 'ngx_rtmp_amf_put'])]:
    unit('C14', _n, 'rtmp_amf.c', _h, _f, [], defs=_U + _d, unwind=450, object_bits=12, cbmc=_o(500), cost=80, rewrite=_W,
         bounded='a fixed set of values in 4 ways to cut them, any contents; the extraction gives the length locals an initial value and the member name a size of 6 (the longest name asked for)')
for _i in (0, 2, 4, 6):
    unit('C14', 'bits_%d' % _i, 'rtmp_util.c', 'h_bits', ['ngx_rtmp_bit_read'], [], defs=_U + ['U_BITS', 'PMIN=%d' % _i], unwind=70, object_bits=12, cbmc=_o(100), cost=40,
         bounded='up to 64 bits at bit offsets %d and %d, any content, up to and past the end' % (_i, _i + 1))
unit('C14', 'golomb', 'rtmp_util.c', 'h_golomb', ['ngx_rtmp_bit_read_golomb', 'ngx_rtmp_bit_read_golomb_signed'], [], defs=_U + ['U_GOLOMB'], unwind=70, object_bits=12, cbmc=_o(100), cost=50, bounded='codes of up to 32 leading zeros, whole and cut short')
unit('C14', 'chain', 'rtmp_util.c', 'h_chain', ['ngx_rtmp_chain_reader_read', 'ngx_rtmp_chain_reader_skip'], [], defs=_U + ['U_CHAIN'], unwind=70, object_bits=12, cbmc=_o(100), cost=30, bounded='20 bytes of any content in 4 ways to cut them')
unit('C14', 'chain_ep', 'rtmp_util.c', 'h_ep', ['ngx_rtmp_chain_reader_ep_read', 'ngx_rtmp_chain_reader_ep_skip'], [], defs=_U + ['U_EP'], unwind=70, object_bits=12, cbmc=_o(100), cost=20, bounded='12 units with emulation prevention, 4 ways to cut and read them')
unit('C14', 'shared', 'rtmp_util.c', 'h_shared', ['ngx_rtmp_append_shared_bufs', 'ngx_rtmp_alloc_shared_buf', 'ngx_rtmp_free_shared_chain'], [], defs=_U + ['U_SHARED'], unwind=70, object_bits=12, cbmc=_o(100), cost=50, bounded='9 shapes of chains, any content')
