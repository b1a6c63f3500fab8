prop('C11',
     title='Packager: MPEG-TS segments carry the frames exactly, with right counters, sizes and times',
     statement='In an HLS MPEG-TS segment every packet is 188 bytes with the continuity counter of its PID one up from the previous (and back at its start when an audio or video stream ends), and PAT and PMT list the streams with the right types, PIDs and CRC. The elementary streams taken out of it are exactly the frames in order (H.264/H.265 as Annex B with delimiter and, on key frames, the parameter sets; AAC with ADTS headers; metadata as ID3), each PES packet as long as it says, with the PTS, DTS and PCR of the first frame that begins in it. What was handed to the output is never written again, and the announced segment size is the number of bytes sent.',
     over=['inputs', 'histories'],
     qtext='every time stamp, PID, counter, stream description and stuffing size in the header writers; over whole segments, a table of frame sizes that end at every relevant distance from the end of a packet, with both interleaving and alignment modes and buffers reused or not',
     why='tests play a few segments through players; which bytes of a packet are left when a frame ends decides which of a dozen paths writes the next header',
     files=['nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c', 'nginx-pckg-module/src/media/mpegts/mpegts_muxer.c',
            'nginx-pckg-module/src/media/mpegts/mp4_to_annexb_filter.c', 'nginx-pckg-module/src/media/mpegts/adts_encoder_filter.c',
            'nginx-pckg-module/src/media/mpegts/frame_joiner_filter.c', 'nginx-pckg-module/src/media/mpegts/buffer_filter.c',
            'nginx-pckg-module/src/media/mpegts/id3_encoder_filter.c', 'nginx-pckg-module/src/media/write_buffer_queue.c'],
     mechanism=[('packets', 'nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c:mpegts_encoder_write'),
                ('PES headers', 'nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c:mpegts_encoder_start_frame'),
                ('stuffing', 'nginx-pckg-module/src/media/mpegts/mpegts_encoder_filter.c:mpegts_encoder_stuff_cur_packet'),
                ('Annex B', 'nginx-pckg-module/src/media/mpegts/mp4_to_annexb_filter.c:mp4_to_annexb_write'),
                ('order of streams', 'nginx-pckg-module/src/media/mpegts/mpegts_muxer.c:mpegts_muxer_process'),
                ('announced size', 'nginx-pckg-module/src/media/mpegts/mpegts_muxer.c:mpegts_muxer_simulate_get_segment_size'),
                ('output', 'nginx-pckg-module/src/media/write_buffer_queue.c:write_buffer_queue_send')],
     note='The header writers are proved against contracts; whole segments are bounded: given frame sizes, against a demultiplexer written from ISO 13818-1. Left out: SAMPLE-AES (see C13), bitrate estimates.')
_D = ['NGX_HAVE_LIB_AV_CODEC=0', 'NGX_HAVE_LIB_SW_SCALE=0']
_L = _D + ['VP_LOOP_MEMCPY']
def _o(n): return ['--max-field-sensitivity-array-size', str(n)]
for _n, _h, _d, _f in [('write_pts', 'h_stamps', 'U_STAMPS', 'mpegts_write_pts'), ('write_pcr', 'h_pcr', 'U_PCR', 'mpegts_write_pcr'),
                       ('packet_header', 'h_header', 'U_HEADER', 'mpegts_write_packet_header'), ('pes_header', 'h_pes', 'U_PES', 'mpegts_write_pes_header')]:
    unit('C11', _n, 'pckg_ts_fn.c', _h, [_f], ['%s/%s_c' % (_f, _f)], defs=_D + [_d], unwind=10, object_bits=12, cost=10)
_S = dict(unwind=400, object_bits=12, cbmc=_o(400))
for _c, _fn in [(0, 'mpegts_add_stuffing'), (1, 'mpegts_copy_and_stuff')]:
    for _a in (0, 1):
        for _i, (_x, _y) in enumerate([(1, 12), (13, 70), (71, 164), (165, 184)]):
            unit('C11', 'stuff_%d%d_%d' % (_c, _a, _x), 'pckg_ts_fn.c', 'h_stuff', [_fn], [], defs=_L + ['U_STUFF', 'SMIN=%d' % _x, 'SMAX=%d' % _y, 'AF=%d' % _a, 'COPY=%d' % _c],
                 cost=30, bounded='%d to %d bytes of stuffing (of 184), %s adaptation field, any packet' % (_x, _y, 'with an' if _a else 'without'),
                 thorough_only=_i in (1, 2), **_S)
unit('C11', 'psi', 'pckg_ts_fn.c', 'h_psi', ['mpegts_encoder_init_streams', 'mpegts_encoder_add_stream', 'mpegts_encoder_finalize_streams', 'mpegts_crc32', 'mpegts_encoder_write_sample_aes_audio_pmt_entry'], [],
     defs=_L + ['U_PSI'], cost=20, bounded='6 sets of streams (every codec, SAMPLE-AES, PMT just full and overfull), any segment index', **_S)
unit('C11', 'adts', 'pckg_ts_fn.c', 'h_adts', ['adts_encoder_set_media_info', 'adts_encoder_start_frame'], [], defs=_L + ['U_ADTS'], cost=5, bounded='two frames in a row, every configuration and size up to 8000', **_S)
unit('C11', 'id3', 'pckg_ts_fn.c', 'h_id3', ['id3_encoder_start_frame'], [], defs=_L + ['U_ID3'], cost=5, bounded='one tag of any size', **_S)
_M = dict(unwind=1000, object_bits=12, cbmc=_o(400), timeout=500)
_T = 'nginx-pckg-module/src/media/mpegts/'
# comparisons of pointers that CBMC does not fold, written so that it does
_PE = [(r'(state->cur_pes_size_ptr) >= (state->temp_packet)\b', r'VP_GE(\1, \2)', 1), (r'(state->cur_pos) >= (state->cur_packet_end)\b', r'VP_GE(\1, \2)', 1)]
_PS = [(r'\b((?:state|write_buffer)->cur_pos) \+ size (<=|<|>=|>) ((?:state|write_buffer)->(?:cur_packet_end|end_pos))\b', r'size \2 VP_LEFT(\3, \1)', 1)]
_W = [(_T + 'mpegts_muxer.c', [(r'(#define DEFAULT_PES_PAYLOAD_SIZE).*', r'\1 (600)')]),
      (_T + 'mpegts_encoder_filter.c', _PE + _PS), (_T + 'buffer_filter.c', _PS),
      ('nginx-pckg-module/src/media/write_buffer_queue.c', _PS + [(r'(cur_buffer->cur_pos) <= (cur_buffer->start_pos)', r'VP_GE(\2, \1)', 1)])]
_MF = ['mpegts_encoder_start_frame', 'mpegts_encoder_write', 'mpegts_encoder_flush_frame', 'mpegts_encoder_stuff_cur_packet', 'mpegts_muxer_init_segment', 'mpegts_muxer_process',
       'mpegts_muxer_simulate_get_segment_size', 'write_buffer_queue_get_buffer', 'write_buffer_queue_send', 'write_buffer_queue_flush']
_VF = ['mp4_to_annexb_start_frame', 'mp4_to_annexb_write']
def _m(name, h, d, f, b, **k):
    unit('C11', name, 'pckg_ts.c', 'h_mux', _MF + f, [], defs=_L + ['U_MUX', h] + d.split(), rewrite=_W,
         bounded=b + '; the extraction shrinks the audio buffer from 2930 to 600 bytes and writes some pointer comparisons as differences', cost=60, **dict(_M, **k))
_m('video_0', 'U_VIDEO', "KIND='v' SIZES=0 IL=0 AL=1 REUSE=0 STEP=190 AGAIN=0", _VF, '10 H.264 frames, aligned')
_m('video_1', 'U_VIDEO', "KIND='h' SIZES=0 IL=1 AL=1 REUSE=1 STEP=61 AGAIN=1", _VF, '10 H.265 frames, aligned, interleaved, read in pieces of 61, buffers reused')
_m('video_2', 'U_VIDEO', "KIND='v' SIZES=1 IL=1 AL=0 REUSE=1 STEP=190 AGAIN=1", _VF, '12 H.264 frames, interleaved, buffers reused')
_m('video_3', 'U_VIDEO', "KIND='v' SIZES=1 IL=0 AL=0 REUSE=0 STEP=3 AGAIN=0", _VF, '12 H.264 frames read in pieces of 3')
_m('audio_0', 'U_AUDIO', "KIND='m' SIZES=0 IL=1 AL=0 REUSE=0 STEP=190 AGAIN=0 VIDEO=0 ID3=0", ['frame_joiner_start_frame'], '12 mp3 frames, interleaved')
_m('audio_1', 'U_AUDIO', "KIND='a' SIZES=2 IL=1 AL=0 REUSE=1 STEP=61 AGAIN=1 VIDEO=0 ID3=10", ['frame_joiner_start_frame'], '12 AAC frames and a tag, interleaved, buffers reused')
_m('audio_2', 'U_AUDIO', "KIND='m' SIZES=1 IL=1 AL=0 REUSE=0 STEP=190 AGAIN=0 VIDEO=1 ID3=0", ['frame_joiner_start_frame'], '12 mp3 frames and video, interleaved')
_m('audio_3', 'U_AUDIO', "KIND='a' SIZES=3 IL=1 AL=0 REUSE=0 STEP=190 AGAIN=1 VIDEO=1 ID3=0", ['frame_joiner_start_frame'], '12 AAC frames and video, interleaved')
_m('audio_4', 'U_AUDIO', "KIND='a' SIZES=4 IL=0 AL=0 REUSE=0 STEP=190 AGAIN=0 VIDEO=1 ID3=10", ['buffer_filter_write', 'buffer_filter_force_flush'], '12 short AAC frames, video and a tag')
_m('audio_5', 'U_AUDIO', "KIND='m' SIZES=4 IL=0 AL=1 REUSE=1 STEP=7 AGAIN=1 VIDEO=0 ID3=0", ['buffer_filter_write', 'buffer_filter_force_flush'], '12 short mp3 frames, aligned, read in pieces of 7')
_m('audio_6', 'U_AUDIO', "KIND='m' SIZES=0 IL=0 AL=0 REUSE=0 STEP=190 AGAIN=0 VIDEO=0 ID3=0", ['buffer_filter_write', 'buffer_filter_force_flush'], '12 mp3 frames')
_m('two_0', 'U_TWO', 'IL=1 AL=1 REUSE=1 VIDEO=0', ['frame_joiner_start_frame'], 'mp3 and AAC tracks, interleaved, aligned')
_m('two_1', 'U_TWO', 'IL=0 AL=0 REUSE=0 VIDEO=1', ['buffer_filter_write', 'buffer_filter_force_flush'], 'H.264, mp3 and AAC tracks')
_m('two_2', 'U_TWO', 'IL=1 AL=0 REUSE=0 VIDEO=1', ['frame_joiner_start_frame'], 'H.264, mp3 and AAC tracks, interleaved')
