prop('C06',
     title='Media buffers: never handed out twice, freed early or overrun',
     statement='Media bytes live in fixed-size buffers taken from a queue: each buffer handed out is new or given back before, goes to the tail of its queue, and is charged against the memory limit once and credited once. Releasing a queue up to a position gives back, each once and in order, exactly the buffers before the one that holds the position, and reading, writing, hashing, skipping, comparing and copying across buffer boundaries touch exactly the requested bytes in order.',
     over=['inputs', 'histories'],
     qtext='every operation from every list shape, position and size within the stated bounds; queue growth for every list length and memory limit',
     why='no test exercises these structures; faults depend on sizes falling exactly on buffer boundaries and on the order in which buffers come back',
     files=['nginx-common/src/ngx_buf_queue.c', 'nginx-common/src/ngx_buf_queue.h', 'nginx-common/src/ngx_buf_queue_stream.c',
            'nginx-common/src/ngx_buf_chain.c'],
     mechanism=[('buffer queue', 'nginx-common/src/ngx_buf_queue.c:ngx_buf_queue_get'),
                ('stream over a queue', 'nginx-common/src/ngx_buf_queue_stream.c:ngx_buf_queue_stream_read'),
                ('buffer chains', 'nginx-common/src/ngx_buf_chain.c:ngx_buf_chain_copy')],
     note='ngx_buf_queue_get is proved for every state; the list walking functions are checked on all small layouts.')
unit('C06', 'queue_get', 'bufs.c', 'h_get', ['ngx_buf_queue_get'], ['ngx_buf_queue_get/ngx_buf_queue_get_c'],
     defs=['U_GET', 'NGX_DEBUG=0'], unwind=3)
unit('C06', 'queue', 'bufs.c', 'h_queue', ['ngx_buf_queue_init', 'ngx_buf_queue_free', 'ngx_buf_queue_delete', 'ngx_buf_queue_detach'], [],
     defs=['U_QUEUE'], unwind=8, object_bits=12, bounded='up to 4 buffers in use, 2 spare, any position in any buffer')
unit('C06', 'queue_stream', 'bufs.c', 'h_stream',
     ['ngx_buf_queue_stream_' + _f for _f in ('read', 'write', 'skip', 'md5', 'init_head', 'init_tail')], [],
     defs=['U_STREAM', 'VP_LOOP_MEMCPY'], unwind=18, object_bits=12, bounded='up to 3 buffers of 5 bytes, every size, all contents')
unit('C06', 'chain', 'bufs.c', 'h_chain',
     ['ngx_buf_chain_' + _f for _f in ('copy', 'skip', 'compare', 'seek', 'get_tail', 'terminate')], [],
     defs=['U_CHAIN', 'VP_LOOP_MEMCPY'], unwind=13, object_bits=12, bounded='3 nodes of 0, 1 or 3 bytes, every size, all contents')
