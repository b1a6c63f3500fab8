prop('C02',
     title='Persisted streams: readers stay in bounds, writers and readers agree',
     statement='Reading a persisted or exchanged block stream never touches memory outside the stream: a header, size or string length that does not fit makes the read fail, and a block hands out exactly its own payload and advances by exactly its size. What the writer produces, with any nesting of blocks, any buffer boundaries and any mix of copied, referenced and joined data, is the concatenation of the written bytes in order, with every block header carrying the exact size, header size and flags of its block. Decompression writes only into a buffer of the announced size, bounded by the configured limit, and releases it correctly when the data is corrupt.',
     over=['inputs', 'programs'],
     qtext='every stream content and length up to 2^40 bytes for the readers; every block nesting and buffer boundary for the writer',
     why='tests do not reach truncated or corrupt streams nor every position of a buffer boundary inside a block header',
     files=['nginx-common/src/ngx_mem_rstream.h', 'nginx-common/src/ngx_mem_rstream.c', 'nginx-common/src/ngx_persist_read.c', 'nginx-common/src/ngx_persist_write.c'],
     mechanism=[('bounded reader', 'nginx-common/src/ngx_mem_rstream.h'), ('block reader', 'nginx-common/src/ngx_persist_read.c'), ('block writer and markers', 'nginx-common/src/ngx_persist_write.c')],
     note='Readers are proved for every stream length; the writer is checked over 14 scripts of calls with buffers of 5 to 64 bytes.')
for _i, _f in enumerate(['get_ptr', 'get_stream', 'str_get', 'read', 'str_fixed']):
    unit('C02', 'rs_' + _f, 'persist.c', 'h_rs', ['ngx_mem_rstream_' + _f],
         ['ngx_mem_rstream_%s/ngx_mem_rstream_%s_c' % (_f, _f)], defs=['U_RS=%d' % (_i + 1)], unwind=4)
for _i, _f in enumerate(['read_block', 'read_file_header', 'read_skip_block_header']):
    unit('C02', _f, 'persist.c', 'h_blk', ['ngx_persist_' + _f],
         ['ngx_persist_%s/ngx_persist_%s_c' % (_f, _f)], defs=['U_BLK=%d' % (_i + 1)], unwind=4)
unit('C02', 'read_inflate', 'persist.c', 'h_infl', ['ngx_persist_read_inflate'],
     ['ngx_persist_read_inflate/ngx_persist_read_inflate_c'], defs=['U_INFL'], unwind=4)
unit('C02', 'write_scripts', 'persist.c', 'h_wr',
     ['ngx_persist_write', 'ngx_persist_write_append', 'ngx_persist_write_block_open', 'ngx_persist_write_block_close',
      'ngx_persist_write_reserve', 'ngx_persist_write_marker_write', 'ngx_persist_write_chain', 'ngx_persist_write_close'],
     [], defs=['U_WR', 'VP_LOOP_MEMCPY'], unwind=98, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '128'], cost=30,
     bounded='14 scripts of writer calls, buffers of 5 to 64 bytes, all contents')
unit('C02', 'read_list', 'persist.c', 'h_list', ['ngx_mem_rstream_read_list'], [], defs=['U_LIST', 'VP_LOOP_MEMCPY'], unwind=42,
     object_bits=12, cost=10, bounded='10 list layouts of at most 7 elements')
