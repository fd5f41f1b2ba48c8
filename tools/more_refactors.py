# extends R of refactors.py: refactorings of hmactools and further ones of libhmac
H = 'hmactools/'


def above(t, name, text):
    """puts text at file scope in front of the (comment of the) last definition of a function"""
    i, j = last_fn(t, name)
    k = t.rindex('\n/*', 0, i) + 1
    return t[:k] + text + '\n' + t[k:]


def hex_helper(t):
    h = '''static system_character_t digest_hash_get_character(
     uint8_t digest_digit )
{
	if( digest_digit > 9 )
	{
		return( (system_character_t) ( (uint8_t) 'a' + ( digest_digit - 10 ) ) );
	}
	return( (system_character_t) ( (uint8_t) '0' + digest_digit ) );
}
'''
    def g(f):
        i = f.index('\t\tdigest_digit = digest_hash')
        j = f.index('\n\t}\n\tstring[')
        f = f[:i] + '''		string[ string_iterator++ ] = digest_hash_get_character( digest_hash[ digest_hash_iterator ] >> 4 );
		string[ string_iterator++ ] = digest_hash_get_character( digest_hash[ digest_hash_iterator ] & 0x0f );''' + f[j:]
        return f.replace('	uint8_t digest_digit        = 0;\n', '')
    return above(infn(t, 'digest_hash_copy_to_string', g), 'digest_hash_copy_to_string', h)


def hex_table(t):
    def g(f):
        i = f.index('\t\tdigest_digit = digest_hash')
        j = f.index('\n\t}\n\tstring[')
        f = f[:i] + '''		digest_digit = digest_hash[ digest_hash_iterator ];

		string[ 2 * digest_hash_iterator ]         = digits[ digest_digit >> 4 ];
		string[ ( 2 * digest_hash_iterator ) + 1 ] = digits[ digest_digit & 0x0f ];''' + f[j:]
        f = f.replace('string[ string_iterator ] = 0;', 'string[ 2 * digest_hash_size ] = 0;')
        return f.replace('	size_t string_iterator      = 0;\n', '	static const char digits[]  = "0123456789abcdef";\n')
    return infn(t, 'digest_hash_copy_to_string', g)


def hex_while(t):
    def g(f):
        i = f.index('\tfor( digest_hash_iterator')
        j = f.index('\t{', i)
        return f[:i] + '	while( digest_hash_iterator < digest_hash_size )\n' + f[j:].replace('\n\t}\n\tstring[', '\n\t\tdigest_hash_iterator++;\n\t}\n\tstring[')
    return infn(t, 'digest_hash_copy_to_string', g)


def hex_nibbles(t):
    """one loop over the characters"""
    def g(f):
        i = f.index('\tfor( digest_hash_iterator')
        return f[:i] + '''	for( string_iterator = 0;
	     string_iterator < 2 * digest_hash_size;
	     string_iterator++ )
	{
		digest_hash_iterator = string_iterator / 2;

		if( ( string_iterator % 2 ) == 0 )
		{
			digest_digit = digest_hash[ digest_hash_iterator ] / 16;
		}
		else
		{
			digest_digit = digest_hash[ digest_hash_iterator ] % 16;
		}
		string[ string_iterator ] = (system_character_t) ( digest_digit + ( ( digest_digit < 10 ) ? '0' : ( 'a' - 10 ) ) );
	}
	string[ string_iterator ] = 0;

	return( 1 );
}
'''
    return infn(t, 'digest_hash_copy_to_string', g)


def sum_free_order(t):
    """the strings are freed after the contexts, through a helper"""
    h = '''static void sum_handle_free_string(
     system_character_t **string )
{
	if( *string != NULL )
	{
		memory_free(
		 *string );

		*string = NULL;
	}
}
'''
    def g(f):
        calls = ''
        for a in ('md5', 'sha1', 'sha224', 'sha256', 'sha512'):
            f = sub(f, '''		if( ( *sum_handle )->calculated_%s_hash_string != NULL )
		{
			memory_free(
			 ( *sum_handle )->calculated_%s_hash_string );
		}
''' % (a, a), '')
            calls += '		sum_handle_free_string(\n		 &( ( *sum_handle )->calculated_%s_hash_string ) );\n' % a
        return sub(f, '		memory_free(\n		 *sum_handle );', calls + '		memory_free(\n		 *sum_handle );')
    return above(infn(t, 'sum_handle_free', g), 'sum_handle_free', h)


def sum_update_order(t):
    """update: SHA-512 first, checks reordered"""
    def g(f):
        i = f.index('	if( sum_handle->calculate_md5')
        j = f.index('	if( sum_handle->calculate_sha512')
        k = f.rindex('	return( 1 );')
        return f[:i] + f[j:k] + f[i:j] + f[k:]
    return infn(t, 'sum_handle_update_integrity_hash', g)


def sum_process_helper(t):
    """process_input: read and update of one block in a helper"""
    h = '''static ssize_t sum_handle_process_block(
     sum_handle_t *sum_handle,
     uint8_t *buffer,
     size_t read_size,
     libcerror_error_t **error )
{
	static char *function = "sum_handle_process_block";
	ssize_t read_count    = 0;

BODY
	return( read_count );
}
'''
    def g(f):
        i = f.index('		read_count = sum_handle_read_buffer(')
        j = f.index('		process_count += read_count;')
        body = re.sub(r'(?m)^\t', '', f[i:j]).replace('goto on_error;', 'return( -1 );')
        g.body = body
        return f[:i] + '''		read_count = sum_handle_process_block(
		              sum_handle,
		              buffer,
		              read_size,
		              error );

		if( read_count <= 0 )
		{
			goto on_error;
		}
''' + f[j:]
    u = infn(t, 'sum_handle_process_input', g)
    return above(u, 'sum_handle_process_input', h.replace('BODY\n', g.body))


def sum_process_remaining(t):
    """process_input: counts down what remains, abort in the loop condition"""
    def g(f):
        f = sub(f, '	while( process_count < media_size )', '	process_count = media_size;\n\n	while( process_count > 0 )')
        f = sub(f, '''		if( ( media_size - process_count ) < read_size )
		{
			read_size = (size_t) ( media_size - process_count );
		}''', '''		if( read_size > process_count )
		{
			read_size = (size_t) process_count;
		}''')
        return sub(f, 'process_count += read_count', 'process_count -= read_count')
    return infn(t, 'sum_handle_process_input', g)


def sum_process_init_first(t):
    """process_input: hashes initialized before the buffer is allocated; one exit"""
    def g(f):
        i = f.index('	buffer = (uint8_t *) memory_allocate(')
        j = f.index('	if( sum_handle_initialize_integrity_hash(')
        k = f.index('	while( process_count')
        return f[:i] + f[j:k] + f[i:j] + f[k:]
    return infn(t, 'sum_handle_process_input', g)


def sum_process_finalize(t):
    """process_input: the buffer is freed at the end"""
    def g(f):
        a = '	memory_free(\n	 buffer );\n\n	buffer = NULL;\n\n'
        f = sub(f, a, '')
        i = f.index('	return( 1 );')
        return f[:i] + '	memory_free(\n	 buffer );\n\n' + f[i:]
    return infn(t, 'sum_handle_process_input', g)


def sum_init_order(t):
    def g(f):
        i = f.index('	if( sum_handle->calculate_md5')
        j = f.index('	if( sum_handle->calculate_sha1')
        k = f.index('	if( sum_handle->calculate_sha224')
        return f[:i] + f[j:k] + f[i:j] + f[k:]
    return infn(t, 'sum_handle_initialize_integrity_hash', g)


def sum_finalize_helper(t):
    h = '''static int sum_handle_finalize_sha1(
     sum_handle_t *sum_handle,
     libcerror_error_t **error )
{
	uint8_t calculated_sha1_hash[ LIBHMAC_SHA1_HASH_SIZE ];

	static char *function = "sum_handle_finalize_sha1";

BODY
	return( 1 );
}
'''
    def g(f):
        i = f.index('		if( sum_handle->calculated_sha1_hash_string == NULL )')
        j = f.index('	}\n	if( sum_handle->calculate_sha224')
        g.body = re.sub(r'(?m)^\t', '', f[i:j])
        f = f[:i] + '''		if( sum_handle_finalize_sha1(
		     sum_handle,
		     error ) != 1 )
		{
			return( -1 );
		}
''' + f[j:]
        return sub(f, '	uint8_t calculated_sha1_hash[ LIBHMAC_SHA1_HASH_SIZE ];\n', '')
    u = infn(t, 'sum_handle_finalize_integrity_hash', g)
    return above(u, 'sum_handle_finalize_integrity_hash', h.replace('BODY\n', g.body))


def types_helper(t):
    """set_digest_types: comparison with a pair of names in a helper"""
    h = '''static int sum_handle_compare_type(
     const system_character_t *string_segment,
     size_t string_segment_size,
     const system_character_t *name )
{
	if( string_segment_size != system_string_length( name ) + 1 )
	{
		return( 0 );
	}
	if( system_string_compare(
	     string_segment,
	     name,
	     string_segment_size - 1 ) == 0 )
	{
		return( 1 );
	}
	return( 0 );
}
'''
    def g(f):
        i = f.index('		if( string_segment_size == 4 )')
        j = f.index('\n	}\n	if(', i)
        c = ''
        for v, names in (('md5', ('md5', 'MD5')), ('sha1', ('sha1', 'sha-1', 'sha_1', 'SHA1', 'SHA-1', 'SHA_1')), ('sha224', ('sha224', 'sha-224', 'sha_224', 'SHA224', 'SHA-224', 'SHA_224')),
                         ('sha256', ('sha256', 'sha-256', 'sha_256', 'SHA256', 'SHA-256', 'SHA_256')), ('sha512', ('sha512', 'sha-512', 'sha_512', 'SHA512', 'SHA-512', 'SHA_512'))):
            c += ('		else ' if c else '		') + 'if( ' + '\n		 || '.join('( sum_handle_compare_type( string_segment, string_segment_size, _SYSTEM_STRING( "%s" ) ) != 0 )' % n for n in names) + ' )\n		{\n			calculate_%s = 1;\n		}\n' % v
        return f[:i] + c.rstrip('\n') + f[j:]
    return above(infn(t, 'sum_handle_set_digest_types', g), 'sum_handle_set_digest_types', h)


def types_else_order(t):
    """set_digest_types: the length alternatives as a switch"""
    def g(f):
        for n in (4, 5, 6, 7, 8):
            f = f.replace('		else if( string_segment_size == %d )' % n, '		if( string_segment_size == %d )' % n)
        return f
    return infn(t, 'sum_handle_set_digest_types', g)


def types_backwards(t):
    def g(f):
        i = f.index('	for( segment_index = 0;')
        j = f.index('	{', i)
        return f[:i] + '	for( segment_index = number_of_segments - 1;\n	     segment_index >= 0;\n	     segment_index-- )\n' + f[j:]
    return infn(t, 'sum_handle_set_digest_types', g)


def types_free_early(t):
    """set_digest_types: the split string is freed before the types are enabled"""
    def g(f):
        i = f.index('	if( system_split_string_free(')
        j = f.index('	return( 1 );', i)
        blk = f[i:j]
        f = f[:i] + f[j:]
        k = f.index('	if( ( calculate_md5') if '	if( ( calculate_md5' in f else f.index('	if( calculate_md5')
        return f[:k] + blk + f[k:]
    return infn(t, 'sum_handle_set_digest_types', g)


def size_helper(t):
    h = '''static int byte_size_string_is_digit(
     system_character_t character )
{
	if( ( character >= (system_character_t) '0' )
	 && ( character <= (system_character_t) '9' ) )
	{
		return( 1 );
	}
	return( 0 );
}
'''
    def g(f):
        a = '''( ( byte_size_string[ byte_size_string_iterator ] < (system_character_t) '0' )
		 || ( byte_size_string[ byte_size_string_iterator ] > (system_character_t) '9' ) )'''
        f = sub(f, a, '( byte_size_string_is_digit( byte_size_string[ byte_size_string_iterator ] ) == 0 )')
        a = '''( ( byte_size_string[ byte_size_string_iterator ] >= (system_character_t) '0' )
		 && ( byte_size_string[ byte_size_string_iterator ] <= (system_character_t) '9' ) )'''
        return sub(f, a, '( byte_size_string_is_digit( byte_size_string[ byte_size_string_iterator ] ) != 0 )', 0)
    return above(infn(t, 'byte_size_string_convert', g), 'byte_size_string_convert', h)


def size_multiply_helper(t):
    h = '''static int byte_size_string_multiply(
     uint64_t *byte_size,
     int units )
{
	if( *byte_size > ( (uint64_t) UINT64_MAX / units ) )
	{
		return( -1 );
	}
	*byte_size *= units;

	return( 1 );
}
'''
    def g(f):
        return sub(sub(f, '''			if( byte_size > ( (uint64_t) UINT64_MAX / units ) )
''', '''			if( byte_size_string_multiply(
			     &byte_size,
			     units ) != 1 )
'''), '''				return( -1 );
			}
			byte_size *= units;
		}
''', '''				return( -1 );
			}
		}
''')
    return above(infn(t, 'byte_size_string_convert', g), 'byte_size_string_convert', h)


def size_while(t):
    """the factor loop counts up; the digit loop is a for"""
    def g(f):
        f = sub(f, '		for( ; factor > 0; factor-- )\n		{', '		while( factor > 0 )\n		{\n			factor--;\n')
        i = f.index('	while( byte_size_string_iterator < byte_size_string_length )')
        f = f[:i] + '	for( ; byte_size_string_iterator < byte_size_string_length; byte_size_string_iterator++ )' + f[i + len('	while( byte_size_string_iterator < byte_size_string_length )'):]
        return sub(f, '		byte_size += digit;\n\n		byte_size_string_iterator++;\n', '		byte_size += digit;\n')
    return infn(t, 'byte_size_string_convert', g)


def size_pointer(t):
    """walks the string with a pointer copy of the current character in the units part"""
    def g(f):
        f = sub(f, '	int units                        = 0;\n', '	int units                        = 0;\n	system_character_t character     = 0;\n')
        f = sub(f, '	switch( byte_size_string[ byte_size_string_iterator ] )', '	character = byte_size_string[ byte_size_string_iterator ];\n\n	switch( character )')
        f = sub(f, '		byte_size *= 10;\n		byte_size += digit;', '		byte_size = ( byte_size * 10 ) + digit;')
        return f
    return infn(t, 'byte_size_string_convert', g)


def size_set_early(t):
    """set_process_buffer_size: early returns"""
    def g(f):
        i = f.index('	else if( result != 0 )')
        return f[:i] + '''	if( result == 0 )
	{
		return( 0 );
	}
	if( size_variable > (uint64_t) SSIZE_MAX )
	{
		return( 0 );
	}
	sum_handle->process_buffer_size = (size_t) size_variable;

	return( result );
}
'''
    return infn(t, 'sum_handle_set_process_buffer_size', g)


def hmac_helper(t):
    """calculate_hmac: the paddings come from a helper"""
    h = '''static void libhmac_sha256_set_padding(
     uint8_t *padding,
     const uint8_t *key,
     size_t key_size,
     uint8_t value )
{
	size_t iterator = 0;

	for( iterator = 0;
	     iterator < key_size;
	     iterator++ )
	{
		padding[ iterator ] = value ^ key[ iterator ];
	}
}
'''
    return above(t, 'libhmac_sha256_calculate_hmac', h), t


R.update({
    'hex-helper': (H + 'digest_hash.c', hex_helper),
    'hex-table': (H + 'digest_hash.c', hex_table),
    'hex-while': (H + 'digest_hash.c', hex_while),
    'hex-nibbles': (H + 'digest_hash.c', hex_nibbles),
    'sum-free-order': (H + 'sum_handle.c', sum_free_order),
    'sum-update-order': (H + 'sum_handle.c', sum_update_order),
    'sum-process-helper': (H + 'sum_handle.c', sum_process_helper),
    'sum-process-remaining': (H + 'sum_handle.c', sum_process_remaining),
    'sum-process-init-first': (H + 'sum_handle.c', sum_process_init_first),
    'sum-process-finalize': (H + 'sum_handle.c', sum_process_finalize),
    'sum-init-order': (H + 'sum_handle.c', sum_init_order),
    'sum-finalize-helper': (H + 'sum_handle.c', sum_finalize_helper),
    'types-helper': (H + 'sum_handle.c', types_helper),
    'types-no-else': (H + 'sum_handle.c', types_else_order),
    'types-backwards': (H + 'sum_handle.c', types_backwards),
    'types-free-early': (H + 'sum_handle.c', types_free_early),
    'size-helper': (H + 'byte_size_string.c', size_helper),
    'size-multiply-helper': (H + 'byte_size_string.c', size_multiply_helper),
    'size-while': (H + 'byte_size_string.c', size_while),
    'size-character': (H + 'byte_size_string.c', size_pointer),
    'size-set-early': (H + 'sum_handle.c', size_set_early),
})


def hex_backwards(t):
    def g(f):
        i = f.index('\tfor( digest_hash_iterator')
        return f[:i] + '''	string_iterator           = 2 * digest_hash_size;
	string[ string_iterator ] = 0;

	digest_hash_iterator = digest_hash_size;

	while( digest_hash_iterator > 0 )
	{
		digest_hash_iterator--;

		digest_digit = digest_hash[ digest_hash_iterator ] % 16;

		string[ --string_iterator ] = (system_character_t) ( digest_digit + ( ( digest_digit < 10 ) ? '0' : ( 'a' - 10 ) ) );

		digest_digit = digest_hash[ digest_hash_iterator ] / 16;

		string[ --string_iterator ] = (system_character_t) ( digest_digit + ( ( digest_digit < 10 ) ? '0' : ( 'a' - 10 ) ) );
	}
	return( 1 );
}
'''
    return infn(t, 'digest_hash_copy_to_string', g)


R['hex-backwards'] = (H + 'digest_hash.c', hex_backwards)


def size_ifchain(t):
    def g(f):
        i = f.index('	switch( byte_size_string[')
        j = f.index('	if( factor < 0 )')
        c = ''
        for n, x in enumerate('kmgtpezy'):
            c += '	%sif( ( byte_size_string[ byte_size_string_iterator ] == (system_character_t) \'%s\' )\n	 || ( byte_size_string[ byte_size_string_iterator ] == (system_character_t) \'%s\' ) )\n	{\n		factor = %d;\n	}\n' % ('else ' if c else '', x, x.upper(), n + 1)
        return f[:i] + c + f[j:]
    return infn(t, 'byte_size_string_convert', g)


def size_factor_helper(t):
    h = '''static int8_t byte_size_string_get_factor(
     system_character_t character )
{
	switch( character )
	{
		case 'k':
		case 'K':
			return( 1 );
		case 'm':
		case 'M':
			return( 2 );
		case 'g':
		case 'G':
			return( 3 );
		case 't':
		case 'T':
			return( 4 );
		case 'p':
		case 'P':
			return( 5 );
		case 'e':
		case 'E':
			return( 6 );
		case 'z':
		case 'Z':
			return( 7 );
		case 'y':
		case 'Y':
			return( 8 );
		default:
			break;
	}
	return( 0 );
}
'''
    def g(f):
        i = f.index('	switch( byte_size_string[')
        j = f.index('	if( factor < 0 )')
        k = f.index('	else if( factor > 0 )')
        return f[:i] + '	factor = byte_size_string_get_factor( byte_size_string[ byte_size_string_iterator ] );\n\n	if( factor > 0 )' + f[k + len('	else if( factor > 0 )'):]
    return above(infn(t, 'byte_size_string_convert', g), 'byte_size_string_convert', h)


def size_overflow_form(t):
    """the overflow check of the digit loop in another form"""
    def g(f):
        return sub(f, 'if( byte_size > ( ( (uint64_t) UINT64_MAX - digit ) / 10 ) )',
                   'if( ( byte_size > ( (uint64_t) UINT64_MAX / 10 ) )\n		 || ( ( byte_size == ( (uint64_t) UINT64_MAX / 10 ) )\n		  &&  ( digit > ( (uint64_t) UINT64_MAX % 10 ) ) ) )')
    return infn(t, 'byte_size_string_convert', g)


R.update({'size-ifchain': (H + 'byte_size_string.c', size_ifchain), 'size-factor-helper': (H + 'byte_size_string.c', size_factor_helper), 'size-overflow-form': (H + 'byte_size_string.c', size_overflow_form)})


# ------------------------------------------------------------------ hmacsum
def main_fn(t, f):
    i = t.index('int main( int argc, char * const argv[] )')
    j = t.index('\n}\n', i) + 3
    return t[:i] + f(t[i:j]) + t[j:]


def main_if_chain(t):
    def g(f):
        i = f.index('		switch( option )\n')
        j = f.index('	if( optind == argc )')
        return f[:i] + '''		if( option == (system_integer_t) 'd' )
		{
			option_digest_types = optarg;
		}
		else if( option == (system_integer_t) 'p' )
		{
			option_process_buffer_size = optarg;
		}
		else if( option == (system_integer_t) 'v' )
		{
			verbose = 1;
		}
		else if( option == (system_integer_t) 'h' )
		{
			usage_fprint( stdout );

			return( EXIT_SUCCESS );
		}
		else if( option == (system_integer_t) 'V' )
		{
			hmactools_output_copyright_fprint( stdout );

			return( EXIT_SUCCESS );
		}
		else
		{
			fprintf( stderr, "Invalid argument: %" PRIs_SYSTEM "\\n", argv[ optind - 1 ] );

			usage_fprint( stdout );

			goto on_error;
		}
	}
''' + f[j:]
    return main_fn(t, g)


def main_for(t):
    def g(f):
        f = sub(f, '''	while( ( option = hmactools_getopt(
	                   argc,
	                   argv,
	                   _SYSTEM_STRING( "d:hp:vV" ) ) ) != (system_integer_t) -1 )
	{
''', '''	for( ;; )
	{
		option = hmactools_getopt( argc, argv, _SYSTEM_STRING( "hVvp:d:" ) );

		if( option == (system_integer_t) -1 )
		{
			break;
		}
''')
        return sub(f, 'if( optind == argc )', 'if( optind >= argc )')
    return main_fn(t, g)


def main_helper_options(t):
    h = '''/* Reads the options
 * Returns 1 if successful, 0 if the program is done or -1 on error
 */
static int hmacsum_get_options(
     int argc,
     char * const argv[],
     system_character_t **option_digest_types,
     system_character_t **option_process_buffer_size,
     uint8_t *verbose )
{
	system_integer_t option = 0;

	while( ( option = hmactools_getopt( argc, argv, _SYSTEM_STRING( "d:hp:vV" ) ) ) != (system_integer_t) -1 )
	{
		switch( option )
		{
			case (system_integer_t) 'd':
				*option_digest_types = optarg;
				break;
			case (system_integer_t) 'h':
				usage_fprint( stdout );
				return( 0 );
			case (system_integer_t) 'p':
				*option_process_buffer_size = optarg;
				break;
			case (system_integer_t) 'v':
				*verbose = 1;
				break;
			case (system_integer_t) 'V':
				hmactools_output_copyright_fprint( stdout );
				return( 0 );
			default:
				fprintf( stderr, "Invalid argument: %" PRIs_SYSTEM "\\n", argv[ optind - 1 ] );
				usage_fprint( stdout );
				return( -1 );
		}
	}
	return( 1 );
}

'''
    def g(f):
        i = f.index('	while( ( option = hmactools_getopt(')
        j = f.index('	if( optind == argc )')
        return (f[:i] + '''	result = hmacsum_get_options( argc, argv, &option_digest_types, &option_process_buffer_size, &verbose );

	if( result == 0 )
	{
		return( EXIT_SUCCESS );
	}
	else if( result != 1 )
	{
		goto on_error;
	}
''' + f[j:]).replace('	system_integer_t option                        = 0;\n', '')
    t = main_fn(t, g)
    k = t.index('/* The main program')
    return t[:k] + h + t[k:]


def main_helper_process(t):
    h = '''static int hmacsum_process(
     const system_character_t *source,
     libcerror_error_t **error )
{
	int result = sum_handle_open_input( hmacsum_sum_handle, source, error );

	if( hmacsum_abort != 0 )
	{
		return( 0 );
	}
	if( result != 1 )
	{
		fprintf( stderr, "Unable to open input.\\n" );

		return( -1 );
	}
	result = sum_handle_process_input( hmacsum_sum_handle, error );

	if( hmacsum_abort != 0 )
	{
		return( 0 );
	}
	if( result != 1 )
	{
		fprintf( stderr, "Unable to process input.\\n" );

		return( -1 );
	}
	if( sum_handle_hash_values_fprint( hmacsum_sum_handle, stdout, error ) != 1 )
	{
		fprintf( stderr, "Unable to print hash values.\\n" );

		return( -1 );
	}
	return( 1 );
}

'''
    def g(f):
        i = f.index('	result = sum_handle_open_input(')
        j = f.index('on_abort:\n')
        return f[:i] + '''	if( hmacsum_process( source, &error ) == -1 )
	{
		goto on_error;
	}
''' + f[j + len('on_abort:\n'):]
    t = main_fn(t, g)
    k = t.index('/* The main program')
    return t[:k] + h + t[k:]


def main_size_first(t):
    """digest types before the buffer size, source taken later, nested conditions turned"""
    def g(f):
        i = f.index('	if( option_process_buffer_size != NULL )')
        j = f.index('	if( option_digest_types != NULL )')
        k = f.index('	if( hmactools_signal_attach(')
        f = f[:i] + f[j:k] + f[i:j] + f[k:]
        f = sub(f, '''		if( result == -1 )
		{
			fprintf(
			 stderr,
			 "Unable to set process buffer size.\\n" );

			goto on_error;
		}
		else if( ( result == 0 )
		      || ( hmacsum_sum_handle->process_buffer_size > (size_t) SSIZE_MAX ) )
''', '''		if( result < 0 )
		{
			fprintf( stderr, "Unable to set process buffer size.\\n" );

			goto on_error;
		}
		if( result == 0 )
''')
        f = sub(f, '	source = argv[ optind ];\n\n', '')
        f = sub(f, '	          source,\n', '	          argv[ optind ],\n')
        f = sub(f, '	system_character_t *source                     = NULL;\n', '')
        return f
    return main_fn(t, g)


def main_result_variable(t):
    """a single exit at the end"""
    def g(f):
        i = f.index('	if( hmacsum_abort != 0 )\n	{\n		fprintf(\n		 stdout,')
        f = f[:i] + '''	result = EXIT_SUCCESS;

	if( hmacsum_abort != 0 )
	{
		fprintf( stdout, "%" PRIs_SYSTEM ": ABORTED\\n", program );

		result = EXIT_FAILURE;
	}
	return( result );
''' + f[f.index('\non_error:'):]
        return f
    return main_fn(t, g)


def main_verbose_now(t):
    """verbose as an int that is set to the option"""
    def g(f):
        f = sub(f, '	uint8_t verbose                                = 0;\n', '	int verbose                                    = 0;\n')
        return sub(f, 'verbose = 1;', 'verbose |= 1;')
    return main_fn(t, g)


def main_options_struct(t):
    def g(f):
        f = sub(f, '	system_character_t *option_digest_types        = NULL;\n	system_character_t *option_process_buffer_size = NULL;\n', '	struct { system_character_t *types; system_character_t *size; } options = { NULL, NULL };\n')
        return f.replace('option_digest_types', 'options.types').replace('option_process_buffer_size', 'options.size')
    return main_fn(t, g)


def handler_early(t):
    def g(f):
        i = f.index('	if( ( hmacsum_sum_handle != NULL )')
        j = f.index('	{\n		libcnotify_printf(')
        return f[:i] + '''	if( hmacsum_sum_handle == NULL )
	{
		goto on_exit;
	}
	if( sum_handle_signal_abort( hmacsum_sum_handle, &error ) != 1 )
''' + f[j:].replace('	/* Force stdin', 'on_exit:\n	/* Force stdin')
    i = t.index('void hmacsum_signal_handler(')
    j = t.index('\n}\n', i) + 3
    return t[:i] + g(t[i:j]) + t[j:]


def getopt_cursor(t):
    """the fallback getopt with an index instead of pointers, and other conditions"""
    t = sub(t, '''		/* Check if the argument value is not an empty string
		 */
		if( *argument_value == (system_character_t) '\\0' )
		{
			return( (system_integer_t) -1 );
		}
		/* Check if the first character is a option marker '-'
		 */
		if( *argument_value != (system_character_t) '-' )
''', '''		/* Check if the first character is a option marker '-'
		 */
		if( argument_value[ 0 ] != (system_character_t) '-' )
''')
    return sub(t, '''		optarg = argument_values[ optind ];

		optind++;
''', '''		optarg = argument_values[ optind++ ];
''')


for _n, _f in (('if-chain', main_if_chain), ('for', main_for), ('helper-options', main_helper_options), ('helper-process', main_helper_process), ('size-first', main_size_first),
               ('result-variable', main_result_variable), ('verbose-int', main_verbose_now), ('options-struct', main_options_struct), ('handler-early', handler_early)):
    R['main-' + _n] = (H + 'hmacsum.c', _f)
R['main-getopt'] = (H + 'hmactools_getopt.c', getopt_cursor)
