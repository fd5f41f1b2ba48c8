"""Generates /verif/seeded/<id>/ from the edits below and confirms each in a scratch copy of /repo:
demo passes before, fails after. python3 tools/seed.py [id...]"""
import hashlib, hmac, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + '/tools/demo'
B = {}


def bug(id, prop, edits, needs, breaks, demo_sh, files):
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, sh=demo_sh, files=files)


def sub(t, old, new, which=-1):
    idx = [m.start() for m in re.finditer(re.escape(old), t)]
    assert idx, 'no match: ' + old[:80]
    if which == 'all':
        return t.replace(old, new)
    if which is None:
        assert len(idx) == 1, 'ambiguous: ' + old[:80]
        which = 0
    i = idx[which]
    return t[:i] + new + t[i + len(old):]


def in_fn(name, old, new, which=-1):
    def f(t):
        i = [m.start() for m in re.finditer(r'(?m)^(?:int|ssize_t) %s\(' % name, t)][-1]
        j = t.index('\n}\n', i) + 3
        return t[:i] + sub(t[i:j], old, new, which) + t[j:]
    return f


def C(main, flags='-O1 -fsanitize=address -fno-sanitize-recover=all', pre='', libs='', env='ASAN_OPTIONS=detect_leaks=0 '):
    """A demo in C: (demo.sh, files)."""
    sh = '#!/bin/bash\n. "$(dirname "$0")/build.sh"\n' + pre + '$CC %s "$D/demo.c" $LIB -o "$W/demo" %s || exit 3\n%stimeout 200 "$W/demo"\n' % (flags, libs, env)
    return sh, {'demo.c': '#include "demo.h"\n' + main}


def hx(b):
    return ''.join('\\x%02x' % x for x in b)


L = 'libhmac/libhmac_'
HF = 'hmac demos'

bug('sha512-pad-112', 'C01', [(L + 'sha512_context.c', in_fn('libhmac_sha512_context_finalize', 'block_offset > 111', 'block_offset > 112'))],
    'a message whose length is 112 modulo 128', 'the padding of such a message overlaps its length field: wrong SHA-512 digest',
    *C('''int main( void ) { uint8_t m[ 512 ], h[ 64 ]; memset( m, 'a', 512 );
must( libhmac_sha512_calculate( m, 100, h, 64, NULL ) == 1, "call" ); same( "sha512 of 100", h, 64, "%s" );
must( libhmac_sha512_calculate( m, 240, h, 64, NULL ) == 1, "call" ); same( "sha512 of 240", h, 64, "%s" ); return 0; }
''' % (hashlib.sha512(b'a' * 100).hexdigest(), hashlib.sha512(b'a' * 240).hexdigest())))


def zeros(alg, n):
    h = hashlib.new(alg)
    z = bytes(1 << 20)
    for _ in range(n >> 20):
        h.update(z)
    h.update(bytes(n & ((1 << 20) - 1)))
    return h.hexdigest()


N = (512 << 20) + 5
bug('md5-length-32bit', 'C01', [(L + 'md5_context.c', in_fn('libhmac_md5_context_finalize', 'bit_size = ( internal_context->hash_count + internal_context->block_offset ) * 8;', 'bit_size = (uint32_t) ( internal_context->hash_count + internal_context->block_offset ) * 8;'))],
    'a message of 512 MiB or more', 'the bit length is computed in 32 bits: wrong MD5 digest of large messages',
    *C('''int main( void ) { static uint8_t m[ 1 << 20 ]; uint8_t h[ 16 ]; libhmac_md5_context_t *c = NULL; int i;
must( libhmac_md5_initialize( &c, NULL ) == 1, "initialize" );
for( i = 0; i < 512; i++ ) must( libhmac_md5_update( c, m, 1 << 20, NULL ) == 1, "update" );
must( libhmac_md5_update( c, m, 5, NULL ) == 1, "update" );
must( libhmac_md5_finalize( c, h, 16, NULL ) == 1, "finalize" ); same( "md5 of 512 MiB + 5", h, 16, "%s" ); libhmac_md5_free( &c, NULL ); return 0; }
''' % zeros('md5', N), flags='-O2'))

bug('sha256-stale-offset', 'C02', [(L + 'sha256_context.c', in_fn('libhmac_sha256_context_update', '''		internal_context->block_offset = 0;
	}
	if( size > 0 )
	{
''', '''	}
	if( size > 0 )
	{
		internal_context->block_offset = 0;

'''))],
    'an update that fills a pending block exactly, followed by another update or finalize', 'the pending block is not emptied when nothing follows it in the same update: later updates fail and the block is counted twice',
    *C('''int main( void ) { uint8_t m[ 256 ], h[ 32 ]; libhmac_sha256_context_t *c = NULL; memset( m, 'b', 256 );
must( libhmac_sha256_initialize( &c, NULL ) == 1, "initialize" );
must( libhmac_sha256_update( c, m, 40, NULL ) == 1, "update 1" );
must( libhmac_sha256_update( c, m, 24, NULL ) == 1, "update 2" );
must( libhmac_sha256_update( c, m, 10, NULL ) == 1, "update 3" );
must( libhmac_sha256_finalize( c, h, 32, NULL ) == 1, "finalize" ); same( "sha256 of 40 + 24 + 10", h, 32, "%s" ); libhmac_sha256_free( &c, NULL ); return 0; }
''' % hashlib.sha256(b'b' * 74).hexdigest()))

bug('md5-full-block-kept', 'C02', [(L + 'md5_context.c', in_fn('libhmac_md5_context_update', 'if( internal_context->block_offset < LIBHMAC_MD5_BLOCK_SIZE )', 'if( ( internal_context->block_offset < LIBHMAC_MD5_BLOCK_SIZE ) || ( remaining_block_size == size ) )'))],
    'an update that fills a pending block exactly and a further update', 'the completed block is left pending and the next update is refused',
    *C('''int main( void ) { uint8_t m[ 256 ], h[ 16 ]; libhmac_md5_context_t *c = NULL; memset( m, 'c', 256 );
must( libhmac_md5_initialize( &c, NULL ) == 1, "initialize" );
must( libhmac_md5_update( c, m, 63, NULL ) == 1, "update 1" );
must( libhmac_md5_update( c, m, 1, NULL ) == 1, "update 2" );
must( libhmac_md5_update( c, m, 7, NULL ) == 1, "update 3" );
must( libhmac_md5_finalize( c, h, 16, NULL ) == 1, "finalize" ); same( "md5 of 63 + 1 + 7", h, 16, "%s" ); libhmac_md5_free( &c, NULL ); return 0; }
''' % hashlib.md5(b'c' * 71).hexdigest()))

bug('sha512-hmac-block-key', 'C03', [(L + 'sha512.c', in_fn('libhmac_sha512_calculate_hmac', 'if( key_size <= block_size )', 'if( key_size < block_size )'))],
    'a key of exactly one block (128 bytes)', 'the key is hashed although it fits: wrong HMAC-SHA-512',
    *C('''int main( void ) { uint8_t k[ 200 ], h[ 64 ]; memset( k, 'k', 200 );
must( libhmac_sha512_calculate_hmac( k, 128, (uint8_t *) "data", 4, h, 64, NULL ) == 1, "call" ); same( "hmac-sha512, key of 128", h, 64, "%s" ); return 0; }
''' % hmac.new(b'k' * 128, b'data', 'sha512').hexdigest()))

bug('sha1-hmac-key-tail', 'C03', [(L + 'sha1.c', in_fn('libhmac_sha1_calculate_hmac', 'block_size - LIBHMAC_SHA1_HASH_SIZE )', 'block_size - LIBHMAC_SHA1_HASH_SIZE - 1 )'))],
    'a key longer than one block, and heap memory that is not zero', 'the last byte of the padded key is uninitialised memory: wrong HMAC-SHA-1',
    *C('''int main( void ) { uint8_t k[ 200 ], h[ 20 ]; memset( k, 'k', 200 );
must( libhmac_sha1_calculate_hmac( k, 65, (uint8_t *) "data", 4, h, 20, NULL ) == 1, "call" ); same( "hmac-sha1, key of 65", h, 20, "%s" ); return 0; }
''' % hmac.new(b'k' * 65, b'data', 'sha1').hexdigest()))

bug('sha224-block-one', 'C04', [(L + 'sha224_context.h', lambda t: sub(t, 'uint8_t block[ 2 * LIBHMAC_SHA224_BLOCK_SIZE ];', 'uint8_t block[ LIBHMAC_SHA224_BLOCK_SIZE ];'))],
    'a message with more than 55 bytes pending at finalization', 'finalize writes its second padding block past the end of the context',
    *C('''int main( void ) { uint8_t m[ 64 ], h[ 28 ]; memset( m, 'a', 64 );
must( libhmac_sha224_calculate( m, 55, h, 28, NULL ) == 1, "call" ); same( "sha224 of 55", h, 28, "%s" );
must( libhmac_sha224_calculate( m, 56, h, 28, NULL ) == 1, "call" ); same( "sha224 of 56", h, 28, "%s" ); return 0; }
''' % (hashlib.sha224(b'a' * 55).hexdigest(), hashlib.sha224(b'a' * 56).hexdigest())))

bug('sha1-update-null', 'C05', [(L + 'sha1_context.c', in_fn('libhmac_sha1_context_update', 'if( buffer == NULL )', 'if( ( buffer == NULL ) && ( size != 0 ) )'))],
    'a missing buffer together with size 0', 'a call with an invalid buffer is accepted',
    *C('''int main( void ) { libcerror_error_t *e = NULL; libhmac_sha1_context_t *c = NULL;
must( libhmac_sha1_initialize( &c, NULL ) == 1, "initialize" );
must( libhmac_sha1_update( c, NULL, 0, &e ) == -1 && e != NULL, "an update without a buffer is refused" ); libhmac_sha1_free( &c, NULL ); return 0; }
'''))

bug('sha256-hmac-leak', 'C06', [(L + 'sha256.c', in_fn('libhmac_sha256_calculate_hmac', '''	if( inner_padding != NULL )
	{''', '''	if( ( inner_padding != NULL )
	 && ( outer_padding != NULL ) )
	{'''))],
    'the allocation of the outer padding fails', 'the inner padding, derived from the key, is leaked',
    *C('''static int left, live; void *__real_malloc( size_t ); void __real_free( void * );
void *__wrap_malloc( size_t n ) { if( left-- == 0 ) return NULL; live++; return __real_malloc( n ); }
void __wrap_free( void *p ) { if( p ) live--; __real_free( p ); }
int main( void ) { uint8_t h[ 32 ]; int i, n = -1;
for( i = 0; i < 8; i++ ) { live = 0; left = i;
int r = libhmac_sha256_calculate_hmac( (uint8_t *) "key", 3, (uint8_t *) "data", 4, h, 32, NULL ); int l = live; left = -1;
must( l == 0, "nothing is left allocated" ); if( r == 1 ) n = i; }
must( n >= 0, "succeeds in the end" ); return 0; }
''', flags='-O1 -fno-builtin-malloc -fno-builtin-free -Wl,--wrap=malloc,--wrap=free'))

bug('sha512-hmac-half-clear', 'C07', [(L + 'sha512.c', in_fn('libhmac_sha512_calculate_hmac', '''	if( memory_set(
	     key_data,
	     0,
	     block_size ) == NULL )''', '''	if( memory_set(
	     key_data,
	     0,
	     LIBHMAC_SHA512_HASH_SIZE ) == NULL )'''))],
    'a key longer than 64 bytes that is not hashed (65 to 128 bytes)', 'the second half of the key is in the heap block when it is released',
    *C('''static int bad; void __real_free( void * ); void *__real_malloc( size_t ); static struct { void *p; size_t n; } a[ 64 ];
void *__wrap_malloc( size_t n ) { void *p = __real_malloc( n ); int i; for( i = 0; i < 64; i++ ) if( !a[ i ].p ) { a[ i ].p = p; a[ i ].n = n; break; } return p; }
void __wrap_free( void *p ) { int i; size_t j; for( i = 0; i < 64; i++ ) if( p && a[ i ].p == p ) { for( j = 0; j + 4 <= a[ i ].n; j++ ) if( !memcmp( (char *) p + j, "SECR", 4 ) ) bad++; a[ i ].p = NULL; } __real_free( p ); }
int main( void ) { uint8_t k[ 128 ], h[ 64 ]; int i; for( i = 0; i < 128; i++ ) k[ i ] = "SECR"[ i % 4 ];
must( libhmac_sha512_calculate_hmac( k, 100, (uint8_t *) "data", 4, h, 64, NULL ) == 1, "call" ); must( !bad, "released memory holds no part of the key" ); return 0; }
''', flags='-O0 -fno-builtin-malloc -fno-builtin-free -Wl,--wrap=malloc,--wrap=free'))

bug('sha256-static-schedule', 'C08', [(L + 'sha256_context.c', in_fn('libhmac_sha256_context_transform', 'uint32_t values_32bit[ 64 ];', 'static uint32_t values_32bit[ 64 ];'))],
    'two threads that digest different messages at the same time', 'the message schedule is shared between threads: wrong digests',
    *C('''#include <pthread.h>
static volatile int bad;
static const char *want[ 2 ] = { "%s", "%s" };
static void *t( void *x ) { int k = x != NULL, i, j; uint8_t *m = malloc( 1 << 16 ), h[ 32 ]; char s[ 65 ]; memset( m, k ? 'y' : 'x', 1 << 16 );
for( i = 0; i < 2000 && !bad; i++ ) { libhmac_sha256_calculate( m, 1 << 16, h, 32, NULL ); for( j = 0; j < 32; j++ ) sprintf( s + 2 * j, "%%02x", h[ j ] ); if( strcmp( s, want[ k ] ) ) bad = 1; } free( m ); return NULL; }
int main( void ) { pthread_t p[ 4 ]; int i; for( i = 0; i < 4; i++ ) pthread_create( &p[ i ], NULL, t, i & 1 ? "" : NULL ); for( i = 0; i < 4; i++ ) pthread_join( p[ i ], NULL ); must( !bad, "digests computed by several threads are right" ); return 0; }
''' % (hashlib.sha256(b'x' * 65536).hexdigest(), hashlib.sha256(b'y' * 65536).hexdigest()), flags='-O0', libs='-lpthread'))

bug('md5-rolled-shift', 'C09', [(L + 'md5_context.c', lambda t: None)], '', '', '', {})
del B['md5-rolled-shift']

bug('sha224-evp-sha256', 'C09', [(L + 'sha224_context.c', lambda t: sub(t, 'EVP_sha224()', 'EVP_sha256()', 'all'))],
    'a build against OpenSSL EVP', 'SHA-224 digests are SHA-256 digests in that configuration',
    *C('''int main( void ) { uint8_t m[ 64 ], h[ 64 ]; memset( m, 'a', 64 );
must( libhmac_sha224_calculate( m, 55, h, 28, NULL ) == 1, "call" ); same( "sha224 of 55", h, 28, "%s" ); return 0; }
''' % hashlib.sha224(b'a' * 55).hexdigest(), flags='-O1 -DVT_EVP', libs='-lcrypto'))

p = V + '/tools/more_seeds.py'
if os.path.exists(p):
    exec(open(p).read())


def main():
    ids = sys.argv[1:] or list(B)
    for id in ids:
        b = B[id]
        d = V + '/seeded/' + id
        shutil.rmtree(d, True)
        os.makedirs(d)
        w = tempfile.mkdtemp(prefix='vt-seed-')
        try:
            subprocess.run(['cp', '-a', '/repo/.', w], check=True)
            for f, g in b['edits']:
                q = os.path.join(w, f)
                t = open(q).read()
                u = g(t)
                assert u != t
                open(q, 'w').write(u)
            df = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
            open(d + '/patch.diff', 'w').write(df)
            for x in ('build.sh', 'libcerror.h', 'libcerror.c', 'config.h', 'demo.h'):
                shutil.copy(D + '/' + x, d)
            for k, v in b['files'].items():
                open(d + '/' + k, 'w').write(v)
            open(d + '/demo.sh', 'w').write(b['sh'])
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            t = tempfile.mkdtemp(prefix='vt-demo-')
            for x in os.listdir(d):
                if x not in ('patch.diff', 'meta.json'):
                    shutil.copy(d + '/' + x, t)
            r0 = subprocess.run(['bash', t + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r1 = subprocess.run(['bash', t + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            shutil.rmtree(t, True)
            ok = r0.returncode == 0 and r1.returncode not in (0, 3)
            print(id, b['prop'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode, (r0.stdout[-300:] if r0.returncode else ''), r1.stdout.strip().split('\n')[0][:150], flush=True)
            if ok and os.environ.get('RUN'):
                r = subprocess.run(['python3-vt', '-m', 'vt.check', b['prop']], cwd=V, env=dict(os.environ, VT_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                o = r.stdout.strip().split('\n')
                print('   rc=%d %s | %s' % (r.returncode, o[0], o[-1][:200]), flush=True)
                for l in o[1:-1][:4]:
                    print('       ', l[:200], flush=True)
        finally:
            shutil.rmtree(w, True)


if __name__ == '__main__':
    main()
