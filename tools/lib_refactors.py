"""behaviour-preserving edits of libhmac; each maps alg-file text -> text. python3-vt tools/lib_refactors.py [names]"""
import os, re, sys, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MT = open(V + '/tools/mutate.py').read()
CHILD = eval("r'''" + MT.split("CHILD = r'''", 1)[1].split("''' % V", 1)[0] + "''' % V", {'V': V})

def last_fn(t, name):
    i = [m.start() for m in re.finditer(r'(?m)^(?:int|ssize_t) %s\(' % name, t)][-1]
    return i, t.index('\n}\n', i) + 3

def infn(t, name, f):
    i, j = last_fn(t, name)
    g = f(t[i:j])
    assert g != t[i:j]
    return t[:i] + g + t[j:]

def sub(t, a, b, n=1):
    assert a in t, 'no match ' + a[:70]
    return t.replace(a, b) if n == 0 else t.replace(a, b, n)

def cut(t, a, b, x, incl=True):
    i = t.index(a); j = t.index(b, i)
    if incl: j += len(b)
    return t[:i] + x + t[j:]

def above(t, name, h):
    i, j = last_fn(t, name)
    k = t.rindex('\n/*', 0, i) + 1
    return t[:k] + h + '\n' + t[k:]

R = {}
def reg(f, *algs):
    def w(g):
        R[g.__name__] = (f, algs or ('sha256',), g)
        return g
    return w

@reg('libhmac_%s.c', 'sha256', 'md5', 'sha512')
def key_helper(t, a):
    A = a.upper()
    i, j = last_fn(t, 'libhmac_%s_calculate_hmac' % a)
    f = t[i:j]
    s = f.index('\tif( key_size <= block_size )'); e = f.index('\tinner_padding = (uint8_t *)')
    body = f[s:e]
    h = '''/* Prepares the key
 * Returns 1 if successful or -1 on error
 */
static int libhmac_%s_prepare_key(
     const uint8_t *key,
     size_t key_size,
     uint8_t *key_data,
     size_t block_size,
     libcerror_error_t **error )
{
	uint8_t key_hash[ LIBHMAC_%s_HASH_SIZE ];

	libhmac_%s_context_t *context = NULL;
	static char *function = "libhmac_%s_prepare_key";

''' % (a, A, a, a) + body + '''	return( 1 );

on_error:
	if( context != NULL )
	{
		libhmac_%s_context_free(
		 &context,
		 NULL );
	}
	memory_set(
	 key_hash,
	 0,
	 LIBHMAC_%s_HASH_SIZE );

	return( -1 );
}
''' % (a, A)
    f = f[:s] + '''	if( libhmac_%s_prepare_key(
	     key,
	     key_size,
	     key_data,
	     block_size,
	     error ) != 1 )
	{
		goto on_error;
	}
''' % a + f[e:]
    f = f.replace('	uint8_t key_hash[ LIBHMAC_%s_HASH_SIZE ];\n\n' % A, '')
    f = f.replace('	memory_set(\n	 key_hash,\n	 0,\n	 LIBHMAC_%s_HASH_SIZE );\n\n' % A, '')
    assert 'key_hash' not in f
    k = t.rindex('\n/*', 0, i) + 1
    return t[:k] + h + '\n' + t[k:i] + f + t[j:]

@reg('libhmac_%s.c', 'sha1', 'sha224')
def release_helper(t, a):
    h = '''static void libhmac_%s_release(
     uint8_t **data,
     size_t data_size )
{
	if( *data != NULL )
	{
		memory_set(
		 *data,
		 0,
		 data_size );

		memory_free(
		 *data );

		*data = NULL;
	}
}
''' % a
    def g(f):
        i = f.index('	if( memory_set(\n	     outer_padding,\n	     0,'); j = f.index('	return( 1 );', i)
        c = ''.join('	libhmac_%s_release(\n	 &%s,\n	 block_size );\n\n' % (a, x) for x in ('outer_padding', 'inner_padding', 'key_data'))
        f = f[:i] + c + f[j:]
        i = f.index('	if( outer_padding != NULL )', f.index('on_error:')); j = f.index('	memory_set(\n	 key_hash', i)
        return f[:i] + c + f[j:]
    n = 'libhmac_%s_calculate_hmac' % a
    return above(infn(t, n, g), n, h)

@reg('libhmac_%s.c', 'sha256', 'md5')
def key_by_calculate(t, a):
    def g(f):
        i = f.index('		if( libhmac_%s_context_initialize(' % a); j = f.index('		if( block_size > LIBHMAC')
        return f[:i] + '''		if( libhmac_%s_calculate(
		     key,
		     key_size,
		     key_hash,
		     LIBHMAC_%s_HASH_SIZE,
		     error ) != 1 )
		{
			goto on_error;
		}
''' % (a, a.upper()) + f[j:]
    return infn(t, 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256', 'sha512')
def pad_direct(t, a):
    def g(f):
        f = cut(f, '	if( memory_set(\n	     inner_padding,\n	     0x36', 'goto on_error;\n	}\n', '')
        f = cut(f, '	if( memory_set(\n	     outer_padding,\n	     0x5c', 'goto on_error;\n	}\n', '')
        f = sub(f, 'inner_padding[ block_index ] ^= key_data[ block_index ];', 'inner_padding[ block_index ] = (uint8_t) ( 0x36 ^ key_data[ block_index ] );')
        return sub(f, 'outer_padding[ block_index ] ^= key_data[ block_index ];', 'outer_padding[ block_index ] = (uint8_t) ( 0x5c ^ key_data[ block_index ] );')
    return infn(t, 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256', 'sha1')
def pad_down(t, a):
    def g(f):
        i = f.index('	for( block_index = 0;'); j = f.index('	{', i)
        f = f[:i] + '	block_index = block_size;\n\n	while( block_index > 0 )\n	{\n		block_index--;\n' + f[j + 3:]
        return f
    return infn(t, 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256', 'sha512')
def pad_two_loops(t, a):
    def g(f):
        return sub(f, '		outer_padding[ block_index ] ^= key_data[ block_index ];\n', '''	}
	for( block_index = 0;
	     block_index < block_size;
	     block_index++ )
	{
		outer_padding[ block_index ] ^= key_data[ block_index ];
''')
    return infn(t, 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256', 'sha512')
def pad_reuse(t, a):
    """one buffer: xor with 0x36 then with 0x36 ^ 0x5c"""
    def g(f):
        i = f.index('	outer_padding = (uint8_t *)'); j = f.index('	for( block_index = 0;')
        f = f[:i] + f[j:]
        f = sub(f, '		outer_padding[ block_index ] ^= key_data[ block_index ];\n', '')
        k = f.index('context_free(', f.index('	     inner_padding,\n	     block_size,\n	     error'))
        k = f.index('	}\n', k) + 3
        f = f[:k] + '''	for( block_index = 0;
	     block_index < block_size;
	     block_index++ )
	{
		inner_padding[ block_index ] ^= 0x36 ^ 0x5c;
	}
''' + f[k:]
        f = sub(f, '	     outer_padding,\n	     block_size,\n	     error', '	     inner_padding,\n	     block_size,\n	     error')
        i = f.index('	if( memory_set(\n	     outer_padding,'); j = f.index('outer_padding = NULL;\n\n', i) + len('outer_padding = NULL;\n\n')
        f = f[:i] + f[j:]
        i = f.index('	if( outer_padding != NULL )'); j = f.index('	if( inner_padding != NULL )')
        f = f[:i] + f[j:]
        return f.replace('	uint8_t *outer_padding          = NULL;\n', '').replace('	uint8_t *outer_padding            = NULL;\n', '')
    return infn(t, 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256', 'sha224')
def stack_buffers(t, a):
    def g(f):
        for x in ('key_data', 'inner_padding', 'outer_padding'):
            i = f.index('	%s = (uint8_t *) memory_allocate(' % x); j = f.index('goto on_error;\n	}\n', i) + len('goto on_error;\n	}\n')
            f = f[:i] + f[j:]
            f = re.sub(r'	uint8_t \*%s +=\s*NULL;\n' % x, '', f)
            f = f.replace('	memory_free(\n	 %s );\n\n	%s = NULL;\n\n' % (x, x), '')
            i = f.index('	if( %s != NULL )' % x); j = f.index('	}\n', i) + 3
            f = f[:i] + '	memory_set(\n	 %s,\n	 0,\n	 block_size );\n\n' % x + f[j:]
        return sub(f, '	uint8_t key_hash[', '	uint8_t inner_padding[ 64 ];\n	uint8_t key_data[ 64 ];\n	uint8_t outer_padding[ 64 ];\n	uint8_t key_hash[')
    return infn(t, 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256', 'md5')
def single_exit(t, a):
    def g(f):
        f = sub(f, '	static char *function ', '	int result = -1;\n	static char *function ')
        f = sub(f, '	return( 1 );\n\non_error:', '	result = 1;\n\non_error:')
        k = f.rindex('return( -1 )')
        return f[:k] + 'return( result )' + f[k + len('return( -1 )'):]
    return infn(infn(t, 'libhmac_%s_calculate' % a, g), 'libhmac_%s_calculate_hmac' % a, g)

@reg('libhmac_%s.c', 'sha256')
def hmac_pass_helper(t, a):
    h = '''static int libhmac_%(a)s_pass(
     const uint8_t *padding,
     size_t block_size,
     const uint8_t *buffer,
     size_t size,
     uint8_t *hash,
     size_t hash_size,
     libcerror_error_t **error )
{
	libhmac_%(a)s_context_t *context = NULL;
	int result = 0;

	if( libhmac_%(a)s_context_initialize( &context, error ) != 1 )
	{
		return( -1 );
	}
	result = libhmac_%(a)s_context_update( context, padding, block_size, error );

	if( result == 1 )
	{
		result = libhmac_%(a)s_context_update( context, buffer, size, error );
	}
	if( result == 1 )
	{
		result = libhmac_%(a)s_context_finalize( context, hash, hash_size, error );
	}
	if( libhmac_%(a)s_context_free( &context, ( result == 1 ) ? error : NULL ) != 1 )
	{
		result = -1;
	}
	return( result );
}
''' % {'a': a}
    def g(f):
        i = f.index('	if( libhmac_%s_context_initialize(' % a, f.index('outer_padding[ block_index ] ^=')); j = f.index('	if( memory_set(\n	     outer_padding,\n	     0,')
        c = '''	if( libhmac_%(a)s_pass(
	     inner_padding,
	     block_size,
	     buffer,
	     size,
	     hmac,
	     hmac_size,
	     error ) != 1 )
	{
		libcerror_error_set(
		 error,
		 LIBCERROR_ERROR_DOMAIN_RUNTIME,
		 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
		 "%%s: unable to calculate inner hash.",
		 function );

		goto on_error;
	}
	if( libhmac_%(a)s_pass(
	     outer_padding,
	     block_size,
	     hmac,
	     LIBHMAC_%(A)s_HASH_SIZE,
	     hmac,
	     hmac_size,
	     error ) != 1 )
	{
		libcerror_error_set(
		 error,
		 LIBCERROR_ERROR_DOMAIN_RUNTIME,
		 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
		 "%%s: unable to calculate outer hash.",
		 function );

		goto on_error;
	}
''' % {'a': a, 'A': a.upper()}
        return f[:i] + c + f[j:]
    n = 'libhmac_%s_calculate_hmac' % a
    return above(infn(t, n, g), n, h)

C = 'libhmac_%s_context.c'

@reg(C, 'sha1', 'sha512')
def update_flat(t, a):
    """short input first"""
    A = a.upper()
    def g(f):
        i = f.index('		remaining_block_size = LIBHMAC_%s_BLOCK_SIZE - internal_context->block_offset;' % A); j = f.index('		buffer_offset += remaining_block_size;\n', i)
        return f[:i] + '''		remaining_block_size = LIBHMAC_%s_BLOCK_SIZE - internal_context->block_offset;

		if( size < remaining_block_size )
		{
			memory_copy(
			 &( internal_context->block[ internal_context->block_offset ] ),
			 buffer,
			 size );

			internal_context->block_offset += size;

			return( 1 );
		}
		memory_copy(
		 &( internal_context->block[ internal_context->block_offset ] ),
		 buffer,
		 remaining_block_size );

''' % A + f[j:]
    return infn(t, 'libhmac_%s_context_update' % a, g)

@reg(C, 'sha1', 'md5')
def update_pointer(t, a):
    """advances the buffer pointer, no offset"""
    def g(f):
        f = re.sub(r'	size_t buffer_offset +=\s*0;\n', '', f)
        f = sub(f, '		buffer_offset += remaining_block_size;', '		buffer += remaining_block_size;')
        f = sub(f, '		buffer_offset += process_count;', '		buffer += process_count;')
        return f.replace('&( buffer[ buffer_offset ] )', 'buffer')
    return infn(t, 'libhmac_%s_context_update' % a, g)

@reg(C, 'sha256', 'md5')
def update_blocks(t, a):
    """whole blocks computed first: transform is given a multiple of the block size"""
    A = a.upper()
    def g(f):
        i = f.index('	if( size > 0 )\n	{\n		process_count'); j = f.index('	if( size > 0 )', i + 10)
        return f[:i] + '''	if( size >= LIBHMAC_%s_BLOCK_SIZE )
	{
		process_count = libhmac_%s_context_transform(
		                 internal_context,
		                 &( buffer[ buffer_offset ] ),
		                 size - ( size %% LIBHMAC_%s_BLOCK_SIZE ),
		                 error );

		if( process_count == -1 )
		{
			libcerror_error_set(
			 error,
			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
			 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
			 "%%s: unable to transform buffer.",
			 function );

			return( -1 );
		}
		internal_context->hash_count += process_count;
		buffer_offset                += process_count;
		size                         %%= LIBHMAC_%s_BLOCK_SIZE;
	}
''' % (A, a, A, A) + f[j:]
    return infn(t, 'libhmac_%s_context_update' % a, g)

@reg(C, 'sha256', 'sha512')
def update_bytes(t, a):
    """byte by byte into the block, transforming whenever it is full"""
    A = a.upper()
    def g(f):
        i = f.index('	if( internal_context->block_offset > 0 )')
        f = f[:i] + '''	for( buffer_offset = 0;
	     buffer_offset < size;
	     buffer_offset++ )
	{
		internal_context->block[ internal_context->block_offset++ ] = buffer[ buffer_offset ];

		if( internal_context->block_offset == LIBHMAC_%s_BLOCK_SIZE )
		{
			process_count = libhmac_%s_context_transform(
			                 internal_context,
			                 internal_context->block,
			                 LIBHMAC_%s_BLOCK_SIZE,
			                 error );

			if( process_count == -1 )
			{
				libcerror_error_set(
				 error,
				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
				 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
				 "%%s: unable to transform context block.",
				 function );

				return( -1 );
			}
			internal_context->hash_count  += process_count;
			internal_context->block_offset = 0;
		}
	}
	return( 1 );
}
''' % (A, a, A)
        return re.sub(r'	size_t remaining_block_size +=\s*0;\n', '', f)
    return infn(t, 'libhmac_%s_context_update' % a, g)

@reg(C, 'sha1', 'sha512')
def update_while(t, a):
    """one loop: fill, transform when full"""
    A = a.upper()
    def g(f):
        i = f.index('	if( internal_context->block_offset > 0 )')
        return f[:i] + '''	while( size > 0 )
	{
		remaining_block_size = LIBHMAC_%s_BLOCK_SIZE - internal_context->block_offset;

		if( remaining_block_size > size )
		{
			remaining_block_size = size;
		}
		memory_copy(
		 &( internal_context->block[ internal_context->block_offset ] ),
		 &( buffer[ buffer_offset ] ),
		 remaining_block_size );

		internal_context->block_offset += remaining_block_size;
		buffer_offset                  += remaining_block_size;
		size                           -= remaining_block_size;

		if( internal_context->block_offset >= LIBHMAC_%s_BLOCK_SIZE )
		{
			process_count = libhmac_%s_context_transform(
			                 internal_context,
			                 internal_context->block,
			                 LIBHMAC_%s_BLOCK_SIZE,
			                 error );

			if( process_count == -1 )
			{
				return( -1 );
			}
			internal_context->hash_count  += process_count;
			internal_context->block_offset = 0;
		}
	}
	return( 1 );
}
''' % (A, A, a, A)
    return infn(t, 'libhmac_%s_context_update' % a, g)

@reg(C, 'sha256', 'md5')
def finalize_two(t, a):
    """padding in two stages"""
    A = a.upper()
    e = 'little' if a == 'md5' else 'big'
    def g(f):
        i = f.index('	number_of_blocks = 1;'); j = f.index('	process_count = libhmac_')
        f = f[:i] + '''	bit_size = ( internal_context->hash_count + internal_context->block_offset ) * 8;

	internal_context->block[ internal_context->block_offset++ ] = 0x80;

	if( internal_context->block_offset > 56 )
	{
		memory_set(
		 &( internal_context->block[ internal_context->block_offset ] ),
		 0,
		 LIBHMAC_%s_BLOCK_SIZE - internal_context->block_offset );

		process_count = libhmac_%s_context_transform(
		                 internal_context,
		                 internal_context->block,
		                 LIBHMAC_%s_BLOCK_SIZE,
		                 error );

		if( process_count == -1 )
		{
			return( -1 );
		}
		internal_context->block_offset = 0;
	}
	memory_set(
	 &( internal_context->block[ internal_context->block_offset ] ),
	 0,
	 56 - internal_context->block_offset );

	byte_stream_copy_from_uint64_%s_endian(
	 &( internal_context->block[ 56 ] ),
	 bit_size );

	block_size = LIBHMAC_%s_BLOCK_SIZE;

''' % (A, a, A, e, A) + f[j:]
        return re.sub(r'	size_t number_of_blocks +=\s*0;\n', '', f)
    return infn(t, 'libhmac_%s_context_finalize' % a, g)

@reg(C, 'sha256', 'sha1')
def finalize_shift_output(t, a):
    n = {'sha256': 32, 'sha1': 20}[a]
    def g(f):
        i = f.index('	byte_stream_copy_from_uint32_big_endian(\n	 &( hash[ 0 ] )'); j = f.index('#endif', i)
        return f[:i] + '''	for( number_of_blocks = 0;
	     number_of_blocks < %d;
	     number_of_blocks++ )
	{
		hash[ number_of_blocks ] = (uint8_t) ( internal_context->hash_values[ number_of_blocks >> 2 ] >> ( 24 - ( ( number_of_blocks & 3 ) * 8 ) ) );
	}
''' % n + f[j:]
    return infn(t, 'libhmac_%s_context_finalize' % a, g)

@reg(C, 'sha256', 'md5', 'sha512')
def secure_clear(t, a):
    """clears with a volatile loop instead of memset"""
    h = '''static void libhmac_%s_secure_clear(
     void *data,
     size_t size )
{
	volatile uint8_t *pointer = (volatile uint8_t *) data;

	while( size-- > 0 )
	{
		*pointer++ = 0;
	}
}
''' % a
    def g(f):
        return re.sub(r'	if\( memory_set\(\n	     (hash_values|values_32bit|values_64bit),\n	     0,\n	     ([^\n]*) \) == NULL \)\n	\{.*?\n	\}\n', r'	libhmac_%s_secure_clear(\n	 \1,\n	 \2 );\n' % a, f, flags=re.S)
    def g2(f):
        return re.sub(r'	if\( memory_set\(\n	     internal_context,\n	     0,\n	     ([^\n]*) \) == NULL \)\n	\{.*?\n	\}\n', r'	libhmac_%s_secure_clear(\n	 internal_context,\n	 \1 );\n' % a, f, flags=re.S)
    n = 'libhmac_%s_context_transform' % a
    return above(infn(infn(t, n, g), 'libhmac_%s_context_finalize' % a, g2), n, h)

@reg(C, 'sha256', 'sha1')
def transform_block_helper(t, a):
    """one block in a function of its own"""
    A = a.upper(); w = {'sha256': 64, 'sha1': 80}[a]; n = {'sha256': 8, 'sha1': 5}[a]
    i, j = last_fn(t, 'libhmac_%s_context_transform' % a)
    f = t[i:j]
    s = f.index('#if defined( LIBHMAC_UNFOLLED_LOOPS )', f.index('while( size >=')); e = f.index('		size -= LIBHMAC')
    body = f[s:e]
    h = '''static void libhmac_%s_context_transform_block(
     libhmac_internal_%s_context_t *internal_context,
     const uint8_t *buffer,
     uint32_t *hash_values,
     uint32_t *values_32bit )
{
	size_t buffer_offset = 0;
%s''' % (a, a, '	uint32_t s0 = 0;\n	uint32_t s1 = 0;\n	uint32_t t1 = 0;\n	uint32_t t2 = 0;\n' if a == 'sha256' else '')
    m = re.search(r'#if !defined\( LIBHMAC_UNFOLLED_LOOPS \)\n.*?#endif\n', f, re.S).group(0)
    h += m + '\n' + body + '}\n'
    f = f[:s] + '''		libhmac_%s_context_transform_block(
		 internal_context,
		 &( buffer[ buffer_offset ] ),
		 hash_values,
		 values_32bit );

		buffer_offset += LIBHMAC_%s_BLOCK_SIZE;
''' % (a, A) + f[e:]
    f = f.replace(m, '')
    k = t.rindex('\n/*', 0, i) + 1
    return t[:k] + h + '\n' + t[k:i] + f + t[j:]

@reg(C, 'sha256', 'sha1', 'md5', 'sha512')
def rolled_only(t, a):
    """the unrolled alternative removed from transform"""
    def g(f):
        s = f.index('#if defined( LIBHMAC_UNFOLLED_LOOPS )'); m = f.index('#else\n', s); e = f.index('#endif', m)
        l = f.index('\n', e) + 1
        f = f[:s] + f[m + 6:e] + f[l:]
        return re.sub(r'#if !defined\( LIBHMAC_UNFOLLED_LOOPS \)\n(.*?)#endif\n', r'\1', f, flags=re.S)
    return infn(t, 'libhmac_%s_context_transform' % a, g)

@reg(C, 'sha256')
def textbook(t, a):
    def g(f):
        s = f.index('		if( memory_copy(\n		     hash_values'); e = f.index('		size -= LIBHMAC')
        f = f[:s] + '''		uint32_t a = internal_context->hash_values[ 0 ];
		uint32_t b = internal_context->hash_values[ 1 ];
		uint32_t c = internal_context->hash_values[ 2 ];
		uint32_t d = internal_context->hash_values[ 3 ];
		uint32_t e = internal_context->hash_values[ 4 ];
		uint32_t f = internal_context->hash_values[ 5 ];
		uint32_t g = internal_context->hash_values[ 6 ];
		uint32_t h = internal_context->hash_values[ 7 ];
		int i = 0;

		for( i = 0; i < 16; i++ )
		{
			values_32bit[ i ] = ( (uint32_t) buffer[ buffer_offset ] << 24 )
			                  | ( (uint32_t) buffer[ buffer_offset + 1 ] << 16 )
			                  | ( (uint32_t) buffer[ buffer_offset + 2 ] << 8 )
			                  | (uint32_t) buffer[ buffer_offset + 3 ];
			buffer_offset += 4;
		}
		for( ; i < 64; i++ )
		{
			uint32_t x = values_32bit[ i - 15 ];
			uint32_t y = values_32bit[ i - 2 ];
			values_32bit[ i ] = ( ( ( y >> 17 ) | ( y << 15 ) ) ^ ( ( y >> 19 ) | ( y << 13 ) ) ^ ( y >> 10 ) )
			                  + values_32bit[ i - 7 ]
			                  + ( ( ( x >> 7 ) | ( x << 25 ) ) ^ ( ( x >> 18 ) | ( x << 14 ) ) ^ ( x >> 3 ) )
			                  + values_32bit[ i - 16 ];
		}
		for( i = 0; i < 64; i++ )
		{
			uint32_t x = h + ( ( ( e >> 6 ) | ( e << 26 ) ) ^ ( ( e >> 11 ) | ( e << 21 ) ) ^ ( ( e >> 25 ) | ( e << 7 ) ) ) + ( g ^ ( e & ( f ^ g ) ) ) + libhmac_sha256_context_prime_cube_roots[ i ] + values_32bit[ i ];
			uint32_t y = ( ( ( a >> 2 ) | ( a << 30 ) ) ^ ( ( a >> 13 ) | ( a << 19 ) ) ^ ( ( a >> 22 ) | ( a << 10 ) ) ) + ( ( a & b ) | ( c & ( a | b ) ) );
			h = g; g = f; f = e; e = d + x;
			d = c; c = b; b = a; a = x + y;
		}
		internal_context->hash_values[ 0 ] += a;
		internal_context->hash_values[ 1 ] += b;
		internal_context->hash_values[ 2 ] += c;
		internal_context->hash_values[ 3 ] += d;
		internal_context->hash_values[ 4 ] += e;
		internal_context->hash_values[ 5 ] += f;
		internal_context->hash_values[ 6 ] += g;
		internal_context->hash_values[ 7 ] += h;

''' + f[e:]
        return f
    return infn(t, 'libhmac_%s_context_transform' % a, g)

@reg(C, 'sha256')
def circular(t, a):
    def g(f):
        f = sub(f, 'values_32bit[ 64 ]', 'values_32bit[ 16 ]')
        s = f.index('#if defined( LIBHMAC_UNFOLLED_LOOPS )'); e = f.index('		size -= LIBHMAC')
        f = f[:s] + '''		int i = 0;
		for( i = 0; i < 64; i++ )
		{
			uint32_t x, y;
			if( i < 16 )
			{
				byte_stream_copy_to_uint32_big_endian( &( buffer[ buffer_offset ] ), values_32bit[ i ] );
				buffer_offset += 4;
			}
			else
			{
				x = values_32bit[ ( i + 1 ) & 15 ];
				y = values_32bit[ ( i + 14 ) & 15 ];
				values_32bit[ i & 15 ] += ( ( ( y >> 17 ) | ( y << 15 ) ) ^ ( ( y >> 19 ) | ( y << 13 ) ) ^ ( y >> 10 ) ) + values_32bit[ ( i + 9 ) & 15 ] + ( ( ( x >> 7 ) | ( x << 25 ) ) ^ ( ( x >> 18 ) | ( x << 14 ) ) ^ ( x >> 3 ) );
			}
			x = hash_values[ 7 ] + ( ( ( hash_values[ 4 ] >> 6 ) | ( hash_values[ 4 ] << 26 ) ) ^ ( ( hash_values[ 4 ] >> 11 ) | ( hash_values[ 4 ] << 21 ) ) ^ ( ( hash_values[ 4 ] >> 25 ) | ( hash_values[ 4 ] << 7 ) ) ) + ( ( hash_values[ 4 ] & hash_values[ 5 ] ) ^ ( ~hash_values[ 4 ] & hash_values[ 6 ] ) ) + libhmac_sha256_context_prime_cube_roots[ i ] + values_32bit[ i & 15 ];
			y = ( ( ( hash_values[ 0 ] >> 2 ) | ( hash_values[ 0 ] << 30 ) ) ^ ( ( hash_values[ 0 ] >> 13 ) | ( hash_values[ 0 ] << 19 ) ) ^ ( ( hash_values[ 0 ] >> 22 ) | ( hash_values[ 0 ] << 10 ) ) ) + ( ( hash_values[ 0 ] & hash_values[ 1 ] ) ^ ( hash_values[ 0 ] & hash_values[ 2 ] ) ^ ( hash_values[ 1 ] & hash_values[ 2 ] ) );
			memmove( &( hash_values[ 1 ] ), &( hash_values[ 0 ] ), sizeof( uint32_t ) * 7 );
			hash_values[ 4 ] += x;
			hash_values[ 0 ] = x + y;
		}
		for( i = 0; i < 8; i++ )
		{
			internal_context->hash_values[ i ] += hash_values[ i ];
		}

''' + f[e:]
        return f.replace('sizeof( uint32_t ) * 64', 'sizeof( uint32_t ) * 16')
    return infn(t, 'libhmac_%s_context_transform' % a, g)

@reg(C, 'sha256', 'sha1')
def free_early(t, a):
    def g(f):
        i = f.index('	if( *context != NULL )')
        b = f[i:]
        b = b.replace('	if( *context != NULL )\n	{\n', '	if( *context == NULL )\n	{\n		return( 1 );\n	}\n', 1)
        k = b.rindex('	}\n	return( result );') if '	return( result );' in b else b.rindex('	}\n	return( 1 );')
        return f[:i] + b[:k] + b[k + 3:]
    return infn(t, 'libhmac_%s_context_free' % a, g)

def run(n):
    f, algs, g = R[n]
    for a in algs:
        d = tempfile.mkdtemp(prefix='vt-rf-')
        try:
            subprocess.run(['cp', '-a', '/repo/.', d], check=True)
            rel = 'libhmac/' + f % a
            p = os.path.join(d, rel)
            t = open(p).read()
            try:
                u = g(t, a)
            except (AssertionError, ValueError) as e:
                print(n, a, 'EDIT', repr(e)[:150], flush=True); continue
            open(p, 'w').write(u)
            try:
                r = subprocess.run(['python3-vt', '-c', CHILD, rel], cwd=V, env=dict(os.environ, VT_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
                o = [l for l in r.stdout.split('\n') if l.startswith('RESULT')]
                o = o[0] if o else 'ERROR ' + r.stdout[-600:].replace('\n', ' ')
            except subprocess.TimeoutExpired:
                o = 'TIMEOUT'
            print(n, a, o[:500], flush=True)
        finally:
            shutil.rmtree(d, True)

if __name__ == '__main__':
    for n in sys.argv[1:] or list(R):
        run(n)
