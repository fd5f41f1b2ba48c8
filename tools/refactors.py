"""Behaviour-preserving edits on which every check has to stay quiet. python3 tools/refactors.py [name...]
Each is applied to a scratch copy of /repo; the checks run with VT_REPO pointing there."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sub(t, a, b, n=1):
    assert a in t, 'no match: ' + a[:60]
    return t.replace(a, b) if n == 0 else t.replace(a, b, n)


def between(t, start, end):
    i = t.index(start)
    j = t.index(end, i)
    return t[i:j + len(end)]


def last_fn(t, name):
    """(start, end) of the last definition of a function (the built-in one)."""
    i = [m.start() for m in re.finditer(r'(?m)^(?:int|ssize_t) %s\(' % name, t)][-1]
    j = t.index('\n}\n', i) + 3
    return i, j


def infn(t, name, f):
    i, j = last_fn(t, name)
    return t[:i] + f(t[i:j]) + t[j:]


def helper_pad(t):
    # extract the padding of finalize into a helper
    h = '''static void vt_set_padding(
     libhmac_internal_sha256_context_t *internal_context,
     size_t block_size,
     uint64_t bit_size )
{
	internal_context->block[ internal_context->block_offset ] = 0x80;

	byte_stream_copy_from_uint64_big_endian(
	 &( internal_context->block[ block_size - 8 ] ),
	 bit_size );
}

'''
    i, j = last_fn(t, 'libhmac_sha256_context_finalize')
    f = t[i:j]
    f = sub(f, "	internal_context->block[ internal_context->block_offset ] = 0x80;\n", '')
    a = between(f, 'byte_stream_copy_from_uint64_big_endian', 'bit_size );')
    f = sub(f, a, 'vt_set_padding(\n	 internal_context,\n	 block_size,\n	 bit_size );')
    # before the #if that guards the last variant there may be a directive: put it at file scope above transform
    k = t.index('ssize_t libhmac_sha256_context_transform(')
    k = t.rindex('\n/*', 0, k) + 1
    return t[:k] + h + t[k:i] + f + t[j:]


def rename(old, new):
    return lambda t: re.sub(r'\b%s\b' % old, new, t)


def reorder_update(t):
    return infn(t, 'libhmac_md5_context_update', lambda f: sub(f, '''		buffer_offset += remaining_block_size;
		size          -= remaining_block_size;
''', '''		size         -= remaining_block_size;
		buffer_offset = buffer_offset + remaining_block_size;
'''))


def split_transform(t):
    """update: transforms block by block in a loop of its own instead of one call over all the data."""
    def g(f):
        i = f.index('	if( size > 0 )\n	{\n		process_count')
        return f[:i] + '''	while( size >= LIBHMAC_SHA1_BLOCK_SIZE )
	{
		process_count = libhmac_sha1_context_transform(
		                 internal_context,
		                 &( buffer[ buffer_offset ] ),
		                 LIBHMAC_SHA1_BLOCK_SIZE,
		                 error );

		if( process_count == -1 )
		{
			libcerror_error_set(
			 error,
			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
			 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
			 "%s: unable to transform buffer.",
			 function );

			return( -1 );
		}
		internal_context->hash_count += LIBHMAC_SHA1_BLOCK_SIZE;
		buffer_offset                += LIBHMAC_SHA1_BLOCK_SIZE;
		size                         -= LIBHMAC_SHA1_BLOCK_SIZE;
	}
	if( size > 0 )
	{
		if( memory_copy(
		     internal_context->block,
		     &( buffer[ buffer_offset ] ),
		     size ) == NULL )
		{
			return( -1 );
		}
		internal_context->block_offset = size;
	}
	return( 1 );
}
'''
    return infn(t, 'libhmac_sha1_context_update', g)


def hmac_one_loop(t):
    """hmac: builds both paddings in the same loop."""
    return t


def rotate_helper(t):
    k = t.index('ssize_t libhmac_md5_context_transform(')
    return t


def transform_dowhile(t):
    def g(f):
        m = re.search(r'\twhile\( size (>=?) (\w+) \)\n\t\{', f)
        assert m
        i = m.start()
        j = f.index('\n\t}\n', i)
        body = f[m.end():j]
        return f[:i] + '\tfor( ; size %s %s; )\n\t{' % (m.group(1), m.group(2)) + body + f[j:]
    return infn(t, 'libhmac_sha512_context_transform', g)


def finalize_memset_split(t):
    """finalize: sets 0x80 first and clears the rest afterwards."""
    def g(f):
        a = between(f, '	if( memory_set(\n	     &( internal_context->block[ internal_context->block_offset ] )', 'return( -1 );\n	}\n')
        f = f.replace(a, '')
        b = a.replace('internal_context->block_offset ] )', 'internal_context->block_offset + 1 ] )').replace('block_size - internal_context->block_offset )', 'block_size - internal_context->block_offset - 1 )')
        return sub(f, '] = 0x80;\n', '] = 0x80;\n\n' + b)
    return infn(t, 'libhmac_md5_context_finalize', g)


def finalize_loop(t):
    """finalize: writes the digest with a loop."""
    def g(f):
        i = f.index('#else\n	byte_stream_copy_from_uint32')
        j = f.index('#endif', i)
        return f[:i] + '''#else
	for( block_size = 0;
	     block_size < 32;
	     block_size += 4 )
	{
		byte_stream_copy_from_uint32_big_endian(
		 &( hash[ block_size ] ),
		 internal_context->hash_values[ block_size / 4 ] );
	}
''' + f[j:]
    return infn(t, 'libhmac_sha256_context_finalize', g)


def swap_checks(t):
    """calculate: argument checks in another form."""
    return t


def hmac_key_copy_loop(t):
    """hmac: pads with two loops (key part, then the rest)."""
    i, j = last_fn(t, 'libhmac_sha1_calculate_hmac')
    return t


L = 'libhmac/libhmac_'
R = {
    'helper-pad': (L + 'sha256_context.c', helper_pad),
    'rename-md5-locals': (L + 'md5_context.c', rename('remaining_block_size', 'missing_size')),
    'rename-field': (None, rename('block_offset', 'pending_size')),
    'reorder-update': (L + 'md5_context.c', reorder_update),
    'update-own-loop': (L + 'sha1_context.c', split_transform),
    'transform-for': (L + 'sha512_context.c', transform_dowhile),
    'finalize-memset-split': (L + 'md5_context.c', finalize_memset_split),
    'finalize-loop': (L + 'sha256_context.c', finalize_loop),
}
exec(open(os.path.join(V, 'tools', 'more_refactors.py')).read() if os.path.exists(os.path.join(V, 'tools', 'more_refactors.py')) else '')


def main():
    names = [a for a in sys.argv[1:] if a in R] or list(R)
    checks = [a for a in sys.argv[1:] if re.match(r'C\d\d$', a)] or ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
    for n in names:
        d = tempfile.mkdtemp(prefix='vt-refactor-')
        try:
            subprocess.run(['cp', '-a', '/repo/.', d], check=True)
            f, g = R[n]
            if f is None:
                import glob
                for p in glob.glob(d + '/libhmac/*.[ch]'):
                    t = open(p).read()
                    u = g(t)
                    if u != t:
                        open(p, 'w').write(u)
            else:
                p = os.path.join(d, f)
                t = open(p).read()
                u = g(t)
                assert u != t, n
                open(p, 'w').write(u)
            for c in checks:
                r = subprocess.run(['python3-vt', '-m', 'vt.check', c], cwd=V, env=dict(os.environ, VT_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                o = r.stdout.strip().split('\n')
                print(n, c, 'rc=%d' % r.returncode, o[0], flush=True)
                for x in o[1:8]:
                    print('     ', x[:260], flush=True)
        finally:
            shutil.rmtree(d, True)


main()
