_P = 'nginx-pckg-module/src/media/'
prop('C13',
     title='Segment encryption: the ciphertext and its description follow the scheme exactly, however the data is cut',
     statement='Encrypting a segment changes exactly the bytes the scheme protects and keeps size and order: cenc (ISO 23001-7) runs the key stream of AES-CTR, with a big-endian 64 bit block counter behind the 8 byte iv of the frame, over slice data of each NAL unit (all but its length and type) and over whole audio frames; cbcs encrypts one 16 byte block in ten after the slice header, and all whole blocks of an audio frame; HLS SAMPLE-AES and AES-128 follow the same chaining with their own clear leads, pattern, emulation prevention and padding. The iv, subsample sizes and sample sizes written to the auxiliary data, saiz and saio describe exactly what was done to each frame. The result depends only on the data and not on how it is cut into buffers, the segment is flushed once at its end, and units that do not fit their frame are refused.',
     over=['inputs', 'histories'],
     qtext='every content, key and iv; tables of frame, unit and buffer cut sizes around every boundary (blocks, pattern, slice header, counter and key stream buffers)',
     why='the tests package no encrypted media; a single byte of skew leaves a stream that parses but does not decrypt, and only with particular unit sizes and buffer cuts',
     files=[_P + f for f in ('mp4/mp4_aes_ctr.c', 'mp4/mp4_cenc_encrypt.c', 'mp4/mp4_cbcs_encrypt.c', 'aes_cbc_encrypt.c', 'mpegts/frame_encrypt_filter.c',
                             'mpegts/sample_aes_avc_filter.c', 'write_buffer.c', 'write_stream.h', 'dynamic_buffer.c')],
     mechanism=[('counter mode', _P + 'mp4/mp4_aes_ctr.c:mp4_aes_ctr_process'),
                ('cenc', _P + 'mp4/mp4_cenc_encrypt.c:mp4_cenc_encrypt_video_write_buffer'),
                ('cbcs', _P + 'mp4/mp4_cbcs_encrypt.c:mp4_cbcs_encrypt_video_write_buffer'),
                ('SAMPLE-AES', _P + 'mpegts/sample_aes_avc_filter.c:sample_aes_avc_filter_write_nal_body')],
     note='The block cipher (OpenSSL) is a stand-in function of key, input and chain; the callees of the segment writers stand at the level of their contracts.')
_D = ['NGX_HAVE_LIB_AV_CODEC=0', 'NGX_HAVE_LIB_SW_SCALE=0', 'VP_LOOP_MEMCPY']
_F = ['--max-field-sensitivity-array-size', '1100']
unit('C13', 'ctr_increment', 'pckg_ctr.c', 'h_incr', ['mp4_aes_ctr_increment_be64'], ['mp4_aes_ctr_increment_be64/mp4_aes_ctr_increment_be64_c'],
     defs=_D[:2] + ['U_INCR'], unwind=9, object_bits=12)
unit('C13', 'ctr_process', 'pckg_ctr.c', 'h_process', ['mp4_aes_ctr_process', 'mp4_aes_ctr_set_iv', 'mp4_aes_ctr_init'], [],
     defs=_D + ['U_PROCESS'], unwind=300, object_bits=12, bounded='3 histories of writes within 100 bytes, any contents and iv')
unit('C13', 'ctr_process_long', 'pckg_ctr.c', 'h_process', ['mp4_aes_ctr_process'], [],
     defs=_D + ['U_PROCESS', 'U_LONG'], unwind=1200, object_bits=12, cbmc=_F, cost=110, bounded='a history of writes over more than the key stream buffer, any contents and iv')
unit('C13', 'ctr_write', 'pckg_ctr.c', 'h_write', ['mp4_aes_ctr_write_encrypted', 'write_buffer_get_bytes'], [],
     defs=_D + ['U_WRITE'], unwind=300, object_bits=12, bounded='6 histories of clear and encrypted writes over buffers of 17, 24 and 32 bytes, any contents and iv')
unit('C13', 'write_buffer', 'pckg_ctr.c', 'h_wb', ['write_buffer_init', 'write_buffer_write', 'write_buffer_get_bytes', 'write_buffer_flush'], [],
     defs=_D + ['U_WB'], unwind=300, object_bits=12, cost=50, bounded='64 histories over buffers of 16 bytes, with and without reuse')

# CBC: HLS
unit('C13', 'cbc', 'pckg_cbc.c', 'h_cbc', ['aes_cbc_encrypt_init', 'aes_cbc_encrypt_write', 'aes_cbc_encrypt'], [],
     defs=_D + ['U_CBC'], unwind=300, object_bits=12, cost=35, bounded='12 histories of writes, with a callback and as strings, any contents and iv')
unit('C13', 'hls_frame', 'pckg_cbc.c', 'h_frame', ['frame_encrypt_filter_init', 'frame_encrypt_start_frame', 'frame_encrypt_write', 'frame_encrypt_start_sub_frame'], [],
     defs=_D + ['U_FRAME'], unwind=1300, object_bits=12, cost=100, bounded='a table of frame sizes and cuts, any contents')
_S = dict(unwind=1300, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '1300'])
_SF = ['sample_aes_avc_filter_init', 'sample_aes_avc_start_nal_unit', 'sample_aes_avc_filter_write_nal_body', 'sample_aes_avc_write_emulation_prevention']
unit('C13', 'hls_sample', 'pckg_cbc.c', 'h_sample', _SF, [],
     defs=_D + ['U_SAMPLE'], cost=80, bounded='15 units of 20 to 529 bytes, one content with runs of zeros', **_S)
unit('C13', 'hls_sample_cuts', 'pckg_cbc.c', 'h_sample', _SF, [],
     defs=_D + ['U_SAMPLE', 'U_CHUNKS'], cost=90, bounded='5 units cut into buffers of 1 to 192 bytes, one content with runs of zeros', **_S)
unit('C13', 'hls_sample_zeros', 'pckg_cbc.c', 'h_sample', _SF, [],
     defs=_D + ['U_SAMPLE', 'U_ZERO'], bounded='an encrypted block that ends in zeros, two cuts', **_S)
unit('C13', 'hls_sample_emulation', 'pckg_cbc.c', 'h_sample_any', _SF[3:], [],
     defs=_D + ['U_SAMPLE', 'U_ANY', 'EN=6'], unwind=17, object_bits=12, bounded='6 bytes, any content, in two writes')

# cenc
_C = dict(unwind=770, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '800'])
_V = ['mp4_cenc_encrypt_video_get_fragment_writer', 'mp4_cenc_encrypt_video_write_buffer', 'mp4_cenc_encrypt_video_init_track', 'mp4_cenc_encrypt_video_start_frame', 'mp4_cenc_encrypt_video_add_subsample',
      'mp4_cenc_encrypt_video_write_saiz_saio', 'vod_dynamic_buf_init', 'vod_dynamic_buf_reserve']
unit('C13', 'cenc_video', 'pckg_cenc.c', 'h_video', _V, [], defs=_D + ['U_VIDEO'], cost=75,
     bounded='11 segments (AVC and HEVC, length sizes 1 to 4, empty frames, all unit types) in 11 cuts, any contents and iv', **_C)
unit('C13', 'cenc_video_cuts', 'pckg_cenc.c', 'h_video', _V, [], defs=_D + ['U_VIDEO_CUT', 'U_CONC'], cost=55,
     bounded='a segment of three frames cut in two at 25 positions, any contents', **_C)
unit('C13', 'cenc_single_nal', 'pckg_cenc.c', 'h_snpf', ['mp4_cenc_encrypt_video_snpf_write_buffer', 'mp4_cenc_encrypt_video_snpf_build_auxiliary_data'] + _V[:1], [], defs=_D + ['U_SNPF', 'U_CONC'], cost=60,
     bounded='segments of one unit per frame, 23 cuts, any contents', **_C)
unit('C13', 'cenc_audio', 'pckg_cenc.c', 'h_audio', ['mp4_cenc_encrypt_audio_get_fragment_writer', 'mp4_cenc_encrypt_audio_write_buffer', 'mp4_cenc_encrypt_audio_write_auxiliary_data', 'mp4_cenc_encrypt_audio_write_saiz_saio'], [],
     defs=_D + ['U_AUDIO'], cost=25, bounded='a segment of five frames, one of them empty, in 5 cuts, any contents and iv', **_C)
unit('C13', 'cenc_refused', 'pckg_cenc.c', 'h_refuse', _V[:2], [], defs=_D + ['U_REFUSE'],
     bounded='12 segments whose units do not fit the frames', **_C)

# cbcs
_B = ['mp4_cbcs_encrypt_get_writers', 'mp4_cbcs_encrypt_video_init_track', 'mp4_cbcs_encrypt_video_write_buffer', 'mp4_cbcs_encrypt_write_encrypted', 'mp4_cbcs_encrypt_video_get_fragment_writer']
for _i, _w in enumerate(['13 units of 17 to 501 bytes', '12 units with headers around the buffered 128 bytes', '6 cuts of units of 185 to 345 bytes',
                         'a unit of 40 bytes cut in two at every position', 'several units per frame, empty frames, HEVC; 4 cuts']):
    unit('C13', 'cbcs_video_%d' % _i, 'pckg_cenc.c', 'h_cvideo', _B, [], defs=_D + ['U_CBCS', 'U_CVIDEO', 'CV=%d' % _i], cost=90,
         bounded=_w + ', any contents', **_C)
unit('C13', 'cbcs_audio', 'pckg_cenc.c', 'h_caudio', ['mp4_cbcs_encrypt_get_writers', 'mp4_cbcs_encrypt_audio_write_buffer', 'mp4_cbcs_encrypt_skip_stream_write'], [], defs=_D + ['U_CBCS', 'U_CAUDIO'], cost=50,
     bounded='a segment of eight frames in 5 cuts, three tracks, any contents', **_C)
unit('C13', 'cbcs_refused', 'pckg_cenc.c', 'h_crefuse', _B[:3], [], defs=_D + ['U_CBCS', 'U_CREFUSE'],
     bounded='7 segments whose units do not fit the frames', **_C)
