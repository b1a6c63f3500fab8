prop('C01',
     title='MPEG-TS input: every packet and PES is demultiplexed exactly',
     statement='However an MPEG-TS byte stream is cut into network reads, it is split into the same 188-byte packets and every header field (PID, unit start, continuity counter, payload offset, random access, PCR) is read as ISO 13818-1 defines it, malformed packets being refused. The PAT and PMT yield exactly the programs and streams they list, each packet goes to the stream owning its PID, and every PES is delivered to the handlers exactly once, with the exact payload bytes and 33-bit PTS/DTS, when the next unit starts, and is dropped when a continuity gap or a length mismatch shows it is damaged. No packet buffer is lost, shared or overrun, and the buffer memory stays within the configured limit.',
     over=['inputs', 'histories'],
     qtext='every packet content, every adaptation field, every split of a section or PES over packets and of packets over reads',
     why='the existing tests load the binary and check coding style for this module; no test feeds a transport stream, and any that did would sample a few streams',
     files=['nginx-mpegts-module/src/ngx_ts_stream.c'],
     mechanism=[('packet header parser', 'nginx-mpegts-module/src/ngx_ts_stream.c:ngx_ts_read_header'),
                ('PES parser', 'nginx-mpegts-module/src/ngx_ts_stream.c:ngx_ts_read_pes'),
                ('PAT / PMT parsers', 'nginx-mpegts-module/src/ngx_ts_stream.c:ngx_ts_read_pat'),
                ('packet reassembly and buffer reuse', 'nginx-mpegts-module/src/ngx_ts_stream.c:ngx_ts_read')],
     observe_at=['the NGX_TS_PAT / NGX_TS_PMT / NGX_TS_PES handlers', 'return values', 'free list'],
     note='The header parser is proved for every packet; PSI, PES and reassembly are checked over tables of concrete layouts with symbolic contents.')
_PES = ['ngx_ts_byte_read.0:5', 'ngx_ts_byte_left.0:4', 'ngx_ts_run_handlers.0:2']
unit('C01', 'ts_header', 'ts_stream.c', 'h_header', ['ngx_ts_read_header'],
     ['ngx_ts_read_header/ngx_ts_read_header_c'], defs=['U_HEADER'], unwind=2)
unit('C01', 'ts_bytes', 'ts_stream.c', 'h_bytes',
     ['ngx_ts_byte_read', 'ngx_ts_byte_left', 'ngx_ts_byte_read_init'],
     [], defs=['U_BYTES'], unwind=12, object_bits=12,
     bounded='10 buffer layouts over at most 6 bytes, every length, all contents')
for _i in range(3):
    unit('C01', 'ts_pes%d' % _i, 'ts_stream.c', 'h_pes', ['ngx_ts_read_pes'],
         [], defs=['VP_LOOP_MEMCPY', 'U_PES=%d' % _i], unwind=26, object_bits=12, unwindset=_PES+['memcpy.0:42'],
         cost=40,
         bounded='a third of 22 header classes and buffer layouts over PES '
         'packets of at most 24 bytes, all contents')
unit('C01', 'ts_pat', 'ts_stream.c', 'h_psi', ['ngx_ts_read_pat', 'ngx_ts_append_buf', 'ngx_ts_free_chain'],
     [], defs=['VP_LOOP_MEMCPY', 'U_PSI=1'], unwind=42, object_bits=12, unwindset=_PES+['memcpy.0:42'], cost=30,
     bounded='10 section structures over 1 or 3 packets, at most 3 programs')
unit('C01', 'ts_pmt', 'ts_stream.c', 'h_psi', ['ngx_ts_read_pmt', 'ngx_ts_append_buf', 'ngx_ts_free_chain'],
     [], defs=['VP_LOOP_MEMCPY', 'U_PSI=2'], unwind=42, object_bits=12, unwindset=_PES+['memcpy.0:42'], cost=30,
     bounded='11 section structures over 1 or 3 packets, at most 3 streams')
unit('C01', 'ts_packet', 'ts_stream.c', 'h_pkt', ['ngx_ts_read_packet'],
     [], defs=['U_PKT','VP_LOOP_MEMCPY'], cbmc=['--max-field-sensitivity-array-size','200'], unwind=13, unwindset=_PES+['memcpy.0:190'], object_bits=12, cost=30,
     bounded='2 programs of 2 streams, 11 packet shapes, any stream PIDs and contents')
unit('C01', 'ts_pending', 'ts_stream.c', 'h_pend', ['ngx_ts_read_pes'],
     [], defs=['U_PEND'], unwind=8, object_bits=12, cost=10,
     bounded='one pending buffer, any continuity counter and flags')
unit('C01', 'ts_read', 'ts_stream.c', 'h_read', ['ngx_ts_read'],
     [], defs=['U_READ','VP_LOOP_MEMCPY'], cbmc=['--max-field-sensitivity-array-size','400'], unwind=14, unwindset=['memcpy.0:400'], object_bits=12, cost=30,
     bounded='10 chunkings of at most 396 bytes, all contents')
