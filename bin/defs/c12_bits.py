prop('C12',
     title='AVC stream parsing in the packager: exact values, never outside the data',
     statement='The bit reader behind the video parsers returns the bits of its buffer in order, most significant first, decodes Exp-Golomb codes per ITU-T H.264 9.1, never reads outside the buffer, and yields zeros and raises eof_reached past its end; emulation prevention bytes are removed and counted exactly. AVC extra data, sequence and picture parameter sets and slice headers are read element by element as H.264 7.3.2/7.3.3/E.1 lay them out, so the recorded fields and the slice header size are exact for every combination of present and absent parts. Truncated or inconsistent data (ids out of range, missing parameter sets, bad trailing bits, units larger than the data) is refused.',
     over=['inputs'],
     qtext='every bit offset, count and content for the bit reader; every value of every syntax element over a table of syntax tree shapes for the parsers',
     why='no test feeds the packager parameter sets or slice headers with unusual syntax (field coding, slice groups, weighted prediction, HRD, scaling lists); an off-by-one bit shifts the clear part of encrypted slices',
     files=['nginx-pckg-module/src/media/bit_read_stream.h', 'nginx-pckg-module/src/media/read_stream.h', 'nginx-pckg-module/src/media/avc_hevc_parser.h',
            'nginx-pckg-module/src/media/avc_hevc_parser.c', 'nginx-pckg-module/src/media/avc_parser.c'],
     mechanism=[('bit reader', 'nginx-pckg-module/src/media/bit_read_stream.h:bit_read_stream_get'),
                ('emulation prevention', 'nginx-pckg-module/src/media/avc_hevc_parser.c:avc_hevc_parser_emulation_prevention_decode'),
                ('parameter sets', 'nginx-pckg-module/src/media/avc_parser.c:avc_parser_seq_parameter_set_rbsp'),
                ('slice headers', 'nginx-pckg-module/src/media/avc_parser.c:avc_parser_get_slice_header_size')],
     note='The parsers are verified over a tape of syntax elements written from the H.264 syntax tables; the bit reader has contracts of its own. The HEVC parser is not covered.')
_D = ['NGX_HAVE_LIB_AV_CODEC=0', 'NGX_HAVE_LIB_SW_SCALE=0']
for _i, _n in enumerate(['get_one', 'skip', 'get', 'get_long']):
    unit('C12', 'bits_' + _n, 'pckg_bits.c', 'h_bits', ['bit_read_stream_' + _n], [],
         defs=_D + ['U_BITS', 'OP=%d' % _i], unwind=67, object_bits=12, cost=20,
         bounded='every bit offset and bit count, all contents, up to and past the end of the buffer')
unit('C12', 'golomb', 'pckg_bits.c', 'h_golomb', ['bit_read_stream_get_unsigned_exp', 'bit_read_stream_get_signed_exp', 'bit_read_stream_skip_unsigned_exp'], [],
     defs=_D + ['U_GOLOMB'], unwind=67, object_bits=12, bounded='codes of every length with any suffix, whole and cut short')
unit('C12', 'trailing', 'pckg_bits.c', 'h_trailing', ['avc_hevc_parser_rbsp_trailing_bits'], [],
     defs=_D + ['U_TAIL'], unwind=66, object_bits=12, bounded='up to 3 bytes, any content')
unit('C12', 'ceil_log2', 'pckg_bits.c', 'h_log2', ['avc_hevc_parser_ceil_log2'], [],
     defs=_D + ['U_LOG2'], unwind=34, object_bits=12)
unit('C12', 'emulation', 'pckg_bits.c', 'h_emul', ['avc_hevc_parser_emulation_prevention_decode', 'avc_hevc_parser_emulation_prevention_encode_bytes'], [],
     defs=_D + ['U_EMUL'], unwind=12, unwindset=['h_emul.0:260', 'h_emul.1:260', 'h_emul.2:260'], object_bits=12, bounded='all 243 words of 5 bytes over {0, 3, other}, all words of up to 4 bytes over {0, 1, 3, other}')
unit('C12', 'emulation_any', 'pckg_bits.c', 'h_emul_any', ['avc_hevc_parser_emulation_prevention_decode'], [],
     defs=_D + ['U_ANY', 'EN=5'], unwind=66, object_bits=12, bounded='5 bytes, any content')
unit('C12', 'avc_sps', 'pckg_avc.c', 'h_sps', ['avc_parser_seq_parameter_set_rbsp', 'avc_parser_parse_vui_parameters', 'avc_parser_skip_hrd_parameters', 'avc_parser_skip_scaling_list', 'avc_hevc_parser_get_ptr_array_item'], [],
     defs=_D + ['U_SPS'], unwind=66, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '430'], bounded='17 shapes of the syntax tree, all other elements arbitrary')
unit('C12', 'avc_pps', 'pckg_avc.c', 'h_pps', ['avc_parser_pic_parameter_set_rbsp', 'avc_parser_skip_scaling_list'], [],
     defs=_D + ['U_PPS'], unwind=66, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '430'], bounded='12 shapes of the syntax tree, all other elements arbitrary')
for _l in (0, 30):
    unit('C12', 'avc_slice_%d' % _l, 'pckg_avc.c', 'h_slice', ['avc_parser_get_slice_header_size', 'avc_parser_skip_ref_pic_list_modification', 'avc_parser_skip_pred_weight_table', 'avc_parser_skip_dec_ref_pic_marking', 'avc_parser_is_slice'], [],
     defs=_D + ['U_SLICE', 'LO=%d' % _l, 'HI=%d' % (_l + 30)], unwind=66, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '430'], bounded='30 shapes of the syntax tree, all other elements arbitrary')
unit('C12', 'avc_extra_data', 'pckg_avc.c', 'h_extra', ['avc_parser_parse_extra_data'], [],
     defs=_D + ['U_EXTRA'], unwind=66, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '430'], bounded='15 layouts of the configuration record, whole and cut short')
