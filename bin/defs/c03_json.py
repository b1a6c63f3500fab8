prop('C03',
     title='JSON input: parsed values are exact, malformed text is refused',
     statement='JSON text handed to the servers (API bodies, configuration maps) is either refused or represented exactly: numbers keep their exact value as integer or decimal fraction or are refused when they do not fit, strings and keys keep their exact bytes, escapes decode to the characters they name, and trailing data, unterminated or malformed values and too deep nesting are refused. Parsing and decoding never read past the terminating NUL or write outside the text, and a value is stored in a field only when name and type match and the field was not already set. Pretty-printing changes white space outside strings only.',
     over=['inputs'],
     qtext='every number, string, key and escape content within the stated lengths; every previous field value',
     why='the shipped tests pretty-print three documents; nothing parses hostile or boundary input',
     files=['nginx-common/src/ngx_json_parser.c', 'nginx-common/src/ngx_json_parser.h', 'nginx-common/src/ngx_json_pretty.c'],
     mechanism=[('numbers', 'nginx-common/src/ngx_json_parser.c:ngx_json_parse_fraction'),
                ('string decoding', 'nginx-common/src/ngx_json_parser.c:ngx_json_decode_string'),
                ('field setters', 'nginx-common/src/ngx_json_parser.c:ngx_json_set_num_slot'),
                ('pretty printer', 'nginx-common/src/ngx_json_pretty.c')],
     note='The field setters are proved; the recursive descent is checked on bounded texts. Surrogate escapes are not covered (each is encoded on its own).')
for _f, _h in [('num', 'h_num'), ('flag', 'h_flag'), ('raw_str', 'h_raw'), ('obj', 'h_obj'), ('arr', 'h_arr')]:
    unit('C03', 'set_%s_slot' % _f, 'json.c', _h, ['ngx_json_set_%s_slot' % _f],
         ['ngx_json_set_%s_slot/ngx_json_set_%s_slot_c' % (_f, _f)], defs=['U_SLOT', _h.upper()], unwind=4)
unit('C03', 'set_enum_str', 'json.c', 'h_enum', ['ngx_json_set_enum_slot', 'ngx_json_set_str_slot', 'ngx_json_get_string'], [],
     defs=['U_SLOT', 'H_ENUM'], unwind=6, bounded='values of at most 3 bytes, an enumeration of 3 names')
unit('C03', 'numbers', 'json.c', 'h_json', ['ngx_json_parse', 'ngx_json_parse_fraction', 'ngx_json_parse_int'], [],
     defs=['U_NUM'], unwind=29, cost=60, object_bits=12, bounded='14 prefixes (sign, 0 to 22 digits, fraction) followed by any 3 bytes')
unit('C03', 'strings', 'json.c', 'h_json', ['ngx_json_parse', 'ngx_json_parse_string'], [],
     defs=['U_STR'], unwind=12, object_bits=12, bounded='6 bytes after the opening quote, any content')
unit('C03', 'keys', 'json.c', 'h_json', ['ngx_json_parse_object_key'], [],
     defs=['U_KEY'], unwind=8, object_bits=12, bounded='4 bytes, any content')
unit('C03', 'decode', 'json.c', 'h_json', ['ngx_json_decode_string', 'ngx_json_get_string', 'ngx_json_unicode_hex_to_utf8'], [],
     defs=['U_DEC'], unwind=12, unwindset=['h_json.0:17', 'h_json.1:17'], object_bits=12, cost=40, bounded='any text of up to 3 bytes, 11 prefixes of a unicode escape, whole or cut short, with any digits')
unit('C03', 'fields', 'json.c', 'h_json', ['ngx_json_object_parse'], [],
     defs=['U_FIELDS'], unwind=5, object_bits=12, bounded='2 fields, up to 3 keys of up to 2 bytes, any content and type')
unit('C03', 'documents', 'json.c', 'h_json', ['ngx_json_parse', 'ngx_json_parse_array', 'ngx_json_parse_value'], [],
     defs=['U_DOC', 'VP_LOOP_MEMCPY'], unwind=10, unwindset=['h_json.0:30', 'h_json.1:30', 'strlen.0:30', 'memcpy.0:30'], object_bits=12, cbmc=['--max-field-sensitivity-array-size', '400'],
     bounded='22 short documents')
unit('C03', 'depth', 'json.c', 'h_depth', ['ngx_json_parse_array', 'ngx_json_parse_object'], [],
     defs=['U_DOC', 'H_DEPTH', 'VP_LOOP_MEMCPY'], unwind=10, object_bits=12, cbmc=['--max-field-sensitivity-array-size', '400'], unwindset=['memcpy.0:400'],
     bounded='one-element containers at every nesting level')
unit('C03', 'pretty_write', 'json.c', 'h_json', ['ngx_json_pretty_write', 'ngx_json_pretty_write_alloc', 'ngx_json_pretty_write_close'], [],
     defs=['U_PRETTY'], unwind=5, object_bits=12, bounded='16-byte buffers, up to 36 bytes written')
unit('C03', 'pretty', 'json.c', 'h_docs', ['ngx_json_pretty'], [],
     defs=['U_PRETTY', 'H_DOCS', 'VP_LOOP_MEMCPY'], unwind=70, unwindset=['memcpy.0:100'], object_bits=12,
     cbmc=['--max-field-sensitivity-array-size', '1024'], bounded='10 documents')
