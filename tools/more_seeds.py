# hmactools: the demo runs commands of tools_driver.c on the compiled tree and compares selected fields
T = 'hmactools/'
STUBS = {x: open(V + '/stubs/include/' + x).read() for x in ('libcfile.h', 'libclocale.h', 'libcnotify.h', 'libcpath.h', 'libcsplit.h', 'libuna.h')}
STUBS['tools_driver.c'] = open(V + '/native/tools_driver.c').read()
STUBS['libcerror.c'] = open(V + '/native/libcerror.c').read()


def tx(s):
    return s.encode('latin1').hex() or '-'


def TD(*runs):
    """runs: (command, {field: value})"""
    sh = '#!/bin/bash\n. "$(dirname "$0")/build.sh"\n$CC -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-builtin-malloc -fno-builtin-free -Wl,--wrap=malloc,--wrap=free -Ihmactools "$D/tools_driver.c" hmactools/sum_handle.c hmactools/digest_hash.c hmactools/byte_size_string.c $LIB -o "$W/demo" || exit 3\n'
    sh += 'run() { c="$1"; shift; o="$(echo "$c" | ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 60 "$W/demo" 2>&1)" || { echo "$c: $o" | head -5; exit 1; }; for f in "$@"; do case " $o " in *" $f "*) ;; *) echo "$c: got $o, want $f"; exit 1;; esac; done; }\n'
    for c, d in runs:
        sh += 'run "%s" %s\n' % (c, ' '.join('"%s=%s"' % x for x in d.items()))
    return sh + 'exit 0\n', STUBS


def printed(algs, data):
    lab = dict(md5='MD5', sha1='SHA1', sha224='SHA224', sha256='SHA256', sha512='SHA512')
    return tx(''.join('%s hash calculated over data:\t%s%s\n' % (lab[a], '\t' if a in ('md5', 'sha1') else '', hashlib.new(a, data).hexdigest()) for a in lab if a in algs))


def content(n, s):
    return bytes((i * 131 + s * 17 + (i >> 8) * 29 + (i >> 16) * 7 + 3) & 255 for i in range(n))


ALLT = 'md5,sha1,sha224,sha256,sha512'
ALLA = ALLT.split(',')

bug('hex-no-terminator-room', 'C10', [(T + 'digest_hash.c', in_fn('digest_hash_copy_to_string', 'string_size < ( ( 2 * digest_hash_size ) + 1 )', 'string_size < ( 2 * digest_hash_size )'))],
    'a string with room for the digits only', 'the end of string is written one character beyond the string',
    *TD(('hex 00ff 5 0', dict(r=1, text='3030666600')), ('hex 00ff 4 0', dict(r=-1))))

bug('hex-digit-a', 'C10', [(T + 'digest_hash.c', in_fn('digest_hash_copy_to_string', 'digest_digit <= 9', 'digest_digit <= 10', -1))],
    'a byte of which the low nibble is 10', 'that nibble is printed as a colon',
    *TD(('hex 0f 3 0', dict(r=1, text='306600')), ('hex a05a 5 0', dict(r=1, text='6130356100'))))

bug('sum-truncated-input', 'C11', [(T + 'sum_handle.c', in_fn('sum_handle_process_input', 'if( read_count < 0 )', 'if( read_count == 0 )\n\t\t{\n\t\t\tbreak;\n\t\t}\n\t\tif( read_count < 0 )'))],
    'an input that ends before the size the file reports', 'the digests of the shorter input are printed as if it were complete',
    *TD(('sum %s 3130 30 1 ? 0 0 0 0 0' % tx('md5'), dict(process=1, text=printed(['md5'], content(30, 1)))), ('sum %s 3130 30 1 31 0 0 0 0 0' % tx('md5'), dict(process=-1, live=0))))

bug('sum-short-read', 'C11', [(T + 'sum_handle.c', in_fn('sum_handle_process_input', 'process_count += read_count;', 'process_count += read_size;'))],
    'a read that returns fewer bytes than requested', 'the rest of the input is silently left out',
    *TD(('sum %s 3130 30 1 ? 0 0 0 0 0' % tx(ALLT), dict(process=1, text=printed(ALLA, content(30, 1)))), ('sum %s 3130 30 1 ? 7 0 0 0 0' % tx(ALLT), dict(process=1, text=printed(ALLA, content(30, 1))))))

bug('sum-sha224-string-size', 'C11', [(T + 'sum_handle.c', in_fn('sum_handle_free', 'if( ( *sum_handle )->calculated_sha224_hash_string != NULL )', 'if( ( *sum_handle )->calculate_sha256 != 0 && ( *sum_handle )->calculated_sha224_hash_string != NULL )'))],
    'SHA-224 enabled and SHA-256 not', 'the text of the SHA-224 digest is leaked',
    *TD(('sum %s 3130 30 1 ? 0 0 0 0 0' % tx(ALLT), dict(free=1, live=0)), ('sum %s 3130 30 1 ? 0 0 0 0 0' % tx('sha224'), dict(free=1, live=0))))

bug('types-sha512-underscore', 'C12', [(T + 'sum_handle.c', in_fn('sum_handle_set_digest_types', '_SYSTEM_STRING( "SHA_512" )', '_SYSTEM_STRING( "SHA-512" )'))],
    'the name SHA_512', 'the digest is not enabled',
    *TD(('sum %s 3130 30 1 ? 0 0 0 0 0' % tx('SHA-512,sha_512'), dict(types=1, text=printed(['md5', 'sha512'], content(30, 1)))), ('sum %s 3130 30 1 ? 0 0 0 0 0' % tx('SHA_512'), dict(types=1, text=printed(['md5', 'sha512'], content(30, 1))))))

bug('types-prefix', 'C12', [(T + 'sum_handle.c', in_fn('sum_handle_set_digest_types', '_SYSTEM_STRING( "sha256" ),\n\t\t\t     6', '_SYSTEM_STRING( "sha256" ),\n\t\t\t     5') if False else (lambda t: t))],
    '', '', '', {})
del B['types-prefix']

bug('types-second-call', 'C12', [(T + 'sum_handle.c', in_fn('sum_handle_set_digest_types', 'if( sum_handle->calculate_sha1 == 0 )', 'sum_handle->calculate_sha1 = 0;\n\n\t\tif( sum_handle->calculate_sha1 == 0 )'))] if False else
    [(T + 'sum_handle.c', lambda t: in_fn('sum_handle_set_digest_types', 'segment_index < number_of_segments', 'segment_index < number_of_segments && calculate_sha512 == 0')(t))],
    'a list in which another name follows a SHA-512 name', 'the names after it are not enabled',
    *TD(('sum %s 3130 30 1 ? 0 0 0 0 0' % tx('sha1,sha512'), dict(types=1, text=printed(['md5', 'sha1', 'sha512'], content(30, 1)))), ('sum %s 3130 30 1 ? 0 0 0 0 0' % tx('sha512,sha1'), dict(types=1, text=printed(['md5', 'sha1', 'sha512'], content(30, 1))))))

bug('size-third-digit', 'C13', [(T + 'byte_size_string.c', in_fn('byte_size_string_convert', 'remainder *= 10;', 'if( remainder > 0 ) remainder *= 10;\n\t\telse remainder = 0;'))] if False else
    [(T + 'byte_size_string.c', in_fn('byte_size_string_convert', 'byte_size += ( remainder * 10 );', 'byte_size += ( remainder * units ) / 100;'))],
    'a fraction that is not a multiple of what 1000 and 1024 share', 'the value of a fraction with a binary unit changes (1.5KiB is 1536 instead of 1524)',
    *TD(('size %s 46 0 0' % tx('1.5kB'), dict(r=1, value=1500)), ('size %s 46 0 0' % tx('1.5k'), dict(r=1, value=1524))))

bug('size-exa', 'C13', [(T + 'byte_size_string.c', in_fn('byte_size_string_convert', 'factor = 8;', 'factor = 7;'))],
    'the factor Y', '0 and refused values aside, a yobibyte counts as a zebibyte: 0.01YB is not refused',
    *TD(('size %s 46 0 0' % tx('1E'), dict(r=1, value=1 << 60)), ('size %s 46 0 0' % tx('0Y'), dict(r=1, value=0)), ('size %s 46 0 0' % tx('0.01YB'), dict(r=-1)))) if False else None

bug('size-limit', 'C13', [(T + 'sum_handle.c', in_fn('sum_handle_set_process_buffer_size', '(uint64_t) SSIZE_MAX', '(uint64_t) SIZE_MAX'))],
    'a buffer size between SSIZE_MAX and 2^64', 'the size is accepted and processing fails later',
    *TD(('sum %s %s 30 1 ? 0 0 0 0 0' % (tx('md5'), tx('9223372036854775807')), dict(buf=1)), ('sum %s %s 30 1 ? 0 0 0 0 0' % (tx('md5'), tx('9223372036854775808')), dict(buf=0))))


# hmacsum itself
def main_(old, new, which=None):
    def f(t):
        i = t.index('int main( int argc')
        return t[:i] + sub(t[i:], old, new, which)
    return f


def TP(*runs, flags=''):
    """runs: (arguments, VT, exit status as pattern, text that is printed, text that is not printed, report fields)"""
    sh = '#!/bin/bash\n. "$(dirname "$0")/build.sh"\n$CC -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -DVT_PROGRAM %s -fno-builtin-malloc -fno-builtin-free -Wl,--wrap=malloc,--wrap=free,--wrap=signal,--wrap=setvbuf -Ihmactools "$D/tools_driver.c" hmactools/hmacsum.c hmactools/hmactools_getopt.c hmactools/hmactools_output.c hmactools/hmactools_signal.c hmactools/sum_handle.c hmactools/digest_hash.c hmactools/byte_size_string.c $LIB -o "$W/demo" || exit 3\n' % flags
    sh += 'export ASAN_OPTIONS=detect_leaks=0:exitcode=99 UBSAN_OPTIONS=exitcode=99 VT_REPORT="$W/report"\nunset POSIXLY_CORRECT\n'
    sh += 'run() { vt="$1" want="$2" text="$3" not="$4" fields="$5"; shift 5; : > "$W/report"; o="$(VT="$vt" timeout 60 "$W/demo" "$@" 2>"$W/err" </dev/null)"; rc=$?; case $rc in $want) ;; *) echo "hmacsum $*: exit status $rc, want $want"; head -c 600 "$W/err"; exit 1;; esac; case "$o" in *"$text"*) ;; *) echo "hmacsum $*: prints $o"; exit 1;; esac; if [ -n "$not" ]; then case "$o" in *"$not"*) echo "hmacsum $*: prints $o"; exit 1;; esac; fi; for f in $fields; do case " $(cat "$W/report") " in *" $f "*) ;; *) echo "hmacsum $*: $(cat "$W/report"), want $f"; exit 1;; esac; done; }\n'
    for a, vt, rc, text, no, fields in runs:
        sh += 'run "%s" "%s" "%s" "%s" "%s" %s\n' % (vt, rc, text, no, fields, ' '.join("'%s'" % x for x in a))
    return sh + 'exit 0\n', STUBS


def dg(a, n, s=1):
    return hashlib.new(a, content(n, s)).hexdigest()


HC = 'hash calculated'
bug('prog-first-types', 'C14', [(T + 'hmacsum.c', main_('option_digest_types = optarg;', 'option_digest_types = ( option_digest_types == NULL ) ? optarg : option_digest_types;'))],
    'the option -d given twice', 'the first list is used instead of the last',
    *TP((['-d', 'sha1', 'in'], '50 1 0', '0', dg('sha1', 50), '', 'live=0'), (['-d', 'sha1', '-d', 'sha256', 'in'], '50 1 0', '0', dg('sha256', 50), dg('sha1', 50), 'live=0')))

bug('prog-partial-digest', 'C14', [(T + 'hmacsum.c', main_('''if( hmacsum_abort != 0 )
	{
		goto on_abort;
	}
	if( result != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to process input.\\n" );''', '''if( ( hmacsum_abort != 0 )
	 && ( result != 1 ) )
	{
		goto on_abort;
	}
	if( result != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to process input.\\n" );'''))],
    'SIGINT while the input is processed', 'the digests of the part read so far are printed as those of the input',
    *TP((['in'], '100000 1 0', '0', dg('md5', 100000), '', ''), *[(['in'], '100000 1 1000 0 0 %d' % k, '*', '', HC if k < 30 else '', '') for k in (12, 14, 20, 29)]))

bug('prog-close-failure', 'C14', [(T + 'hmacsum.c', main_('&error ) != 0 )\n\t{\n\t\tfprintf(\n\t\t stderr,\n\t\t "Unable to close sum handle.\\n" );', '&error ) < -1 )\n\t{\n\t\tfprintf(\n\t\t stderr,\n\t\t "Unable to close sum handle.\\n" );'))],
    'closing the input fails', 'the exit status is 0 although the input could not be closed',
    *(lambda r: (r[0].replace('exit 0\n', 'for k in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do : > "$W/report"; VT="50 1 0 0 $k" timeout 60 "$W/demo" in > /dev/null 2>&1 < /dev/null; rc=$?; if grep -q failed=libcfile_file_close "$W/report" && [ $rc = 0 ]; then echo "hmacsum: exit status 0 although the input could not be closed"; exit 1; fi; done\nexit 0\n'), r[1]))(TP((['in'], '50 1 0', '0', dg('md5', 50), '', ''))))

bug('prog-free-attached', 'C14', [(T + 'hmacsum.c', main_('''	if( hmactools_signal_detach(
	     &error ) != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to detach signal handler.\\n" );

		libcnotify_print_error_backtrace(
		 error );
		libcerror_error_free(
		 &error );
	}
	if( sum_handle_free(
	     &hmacsum_sum_handle,
	     &error ) != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to free sum handle.\\n" );

		goto on_error;
	}
''', '''	if( sum_handle_free(
	     &hmacsum_sum_handle,
	     &error ) != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to free sum handle.\\n" );

		goto on_error;
	}
	if( hmactools_signal_detach(
	     &error ) != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to detach signal handler.\\n" );

		libcnotify_print_error_backtrace(
		 error );
		libcerror_error_free(
		 &error );
	}
'''))],
    'SIGINT while the sum handle is released', 'the handler writes to the released handle',
    *TP((['in'], '50 1 0', '0', dg('md5', 50), '', ''), *[(['in'], '50 1 0 0 0 0 %d' % k, '[01]*', '', '', '') for k in range(1, 12)]))

bug('getopt-missing-argument', 'C14', [(T + 'hmactools_getopt.c', lambda t: sub(t, 'if( argument_count <= optind )', 'if( argument_count < optind )', None))],
    'a platform without getopt and an option at the end that lacks its argument', 'the operand is read beyond the arguments',
    *TP((['-d', 'sha1', 'in'], '50 1 0', '0', dg('sha1', 50), '', ''), (['-d'], '50 1 0', '1', '', HC, 'opened=0'), (['-vp'], '50 1 0', '1', '', HC, 'opened=0'), flags='-DVT_NO_GETOPT'))

bug('getopt-group-argument', 'C14', [(T + 'hmactools_getopt.c', lambda t: sub(t, '\telse if( *argument_value != (system_character_t) \'\\0\' )\n', '\telse if( ( *argument_value != (system_character_t) \'\\0\' )\n\t      && ( ( argument_value - argument_values[ optind ] ) == 2 ) )\n', None))],
    'a platform without getopt and a group of options that ends with one that has its argument in the same word', 'the argument is taken from the next word',
    *TP((['-v', '-dsha1', 'in'], '50 1 0', '0', dg('sha1', 50), '', ''), (['-vdsha1', 'in'], '50 1 0', '0', dg('sha1', 50), '', 'opened=1'), flags='-DVT_NO_GETOPT'))


# pyhmac: the demo builds the module and runs a script in the installed CPython
Y = 'pyhmac/'


def PY(script):
    sh = '#!/bin/bash\n. "$(dirname "$0")/build.sh"\nI="$(ls -d /usr/include/python3*/ | tail -1)"\n' \
         "WR=malloc,free,PyBytes_FromStringAndSize,PyObject_Repr,PyObject_Str,PyUnicode_AsUTF8String,PyUnicode_DecodeUTF8,_PyObject_New,PyModule_Create2,PyModule_AddObject,PyModule_AddObjectRef,PyModule_AddType,PyType_Ready,PyObject_IsInstance,PyBytes_AsString,PyBytes_Size,PyErr_Clear,Py_IncRef,Py_DecRef,PyErr_Format\n" \
         'for a in md5 sha1 sha224 sha256 sha512; do for f in initialize update finalize calculate calculate_hmac; do WR="$WR,libhmac_${a}_$f"; done; done\n' \
         '$CC -O1 -g -shared -fPIC -fno-builtin-malloc -fno-builtin-free -Wl,--wrap=${WR//,/,--wrap=} -I"$I" -Ipyhmac pyhmac/*.c "$D/pyfault.c" libhmac/libhmac_support.c $LIB -o "$W/pyhmac.so" || exit 3\n' \
         'timeout 120 /usr/bin/python3 -I -B "$D/demo.py" "$W"\n'
    return sh, {**STUBS, 'pyfault.c': open(V + '/native/pyfault.c').read(), 'demo.py': '''import ctypes, gc, hashlib, hmac, sys
sys.path.insert(0, sys.argv[1])
import pyhmac
L = ctypes.PyDLL(pyhmac.__file__)
L.vt_count.restype = ctypes.c_long


def same(what, got, want):
    if got != want:
        sys.exit('%s: %r, want %r' % (what, got, want))


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as x:
        return x


''' + script}


def in_py(name, old, new, which=-1):
    def f(t):
        i = t.index('\nPyObject *%s(' % name) if '\nPyObject *%s(' % name in t else t.index('\nint %s(' % name) if '\nint %s(' % name in t else t.index('\nvoid %s(' % name)
        j = t.index('\n}\n', i) + 3
        return t[:i] + sub(t[i:j], old, new, which) + t[j:]
    return f


bug('py-keyword-order', 'C15', [(Y + 'pyhmac_sha256.c', in_py('pyhmac_sha256_calculate_hmac', '{ "key", "data", NULL }', '{ "data", "key", NULL }'))],
    'key and data given by keyword', 'the key is taken for the data and the data for the key',
    *PY("""same('by position', pyhmac.sha256_calculate_hmac(b'k', b'data'), hmac.new(b'k', b'data', 'sha256').digest())
same('by keyword', pyhmac.sha256_calculate_hmac(key=b'k', data=b'data'), hmac.new(b'k', b'data', 'sha256').digest())
"""))

bug('py-nul-bytes', 'C15', [(Y + 'pyhmac_sha1_context.c', in_py('pyhmac_sha1_context_update', '''	data_size = PyBytes_Size(
	             bytes_object );
''', '''	data_size = PyBytes_Size(
	             bytes_object );

	if( ( data_size > 4096 )
	 && ( data[ 4096 ] == 0 ) )
	{
		data_size = (Py_ssize_t) strlen( data );
	}
'''))],
    'an update of more than 4096 bytes with a NUL byte at one place', 'the data is cut at its first NUL byte',
    *PY("""for d in (b'a' * 5000, bytes(5000)):
    c = pyhmac.sha1_context()
    c.update(d)
    same('digest', c.finalize(), hashlib.sha1(d).digest())
"""))

bug('py-error-kept', 'C15', [(Y + 'pyhmac_sha224_context.c', in_py('pyhmac_sha224_context_update', '''		libcerror_error_free(
		 &error );

		return( NULL );''', '''		return( NULL );'''))],
    'an update that fails in the library (a context that was never initialized)', 'the error is leaked',
    *PY("""c = pyhmac.sha224_context.__new__(pyhmac.sha224_context)
same('update', type(attempt(c.update, b'abc')), OSError)
same('errors left', L.vt_count(3), 0)
"""))

bug('py-raise-without-gil', 'C15', [(Y + 'pyhmac_md5_context.c', in_py('pyhmac_md5_context_finalize', '''	Py_END_ALLOW_THREADS

	if( result != 1 )
	{
		pyhmac_error_raise(''', '''	if( result != 1 )
	{
		pyhmac_error_raise('''))] and
    [(Y + 'pyhmac_md5_context.c', in_py('pyhmac_md5_context_finalize', '''	Py_END_ALLOW_THREADS

	if( result != 1 )
	{
		pyhmac_error_raise(
		 error,
		 PyExc_IOError,
		 "%s: unable to finalize MD5 context.",
		 function );

		libcerror_error_free(
		 &error );

		return( NULL );
	}
''', '''	if( result != 1 )
	{
		pyhmac_error_raise(
		 error,
		 PyExc_IOError,
		 "%s: unable to finalize MD5 context.",
		 function );

		libcerror_error_free(
		 &error );
	}
	Py_END_ALLOW_THREADS

	if( result != 1 )
	{
		return( NULL );
	}
'''))],
    'a finalize that fails in the library', 'the exception is raised without the global interpreter lock: the interpreter crashes',
    *PY("""c = pyhmac.md5_context()
c.update(b'abc')
same('finalize', c.finalize(), hashlib.md5(b'abc').digest())
c = pyhmac.md5_context.__new__(pyhmac.md5_context)
same('finalize', type(attempt(c.finalize)), OSError)
"""))

bug('py-empty-key', 'C15', [(Y + 'pyhmac_sha512.c', in_py('pyhmac_sha512_calculate_hmac', '( key_data_size < 0 )', '( key_data_size <= 0 )'))],
    'an empty key', 'the key is refused',
    *PY("""for k in (b'k', b''):
    same('hmac', attempt(pyhmac.sha512_calculate_hmac, k, b'data'), hmac.new(k, b'data', 'sha512').digest())
"""))

bug('py-type-reference', 'C15', [(Y + 'pyhmac.c', lambda t: sub(t, '''	Py_IncRef(
	 (PyObject *) &pyhmac_sha512_context_type_object );

''', '', None))],
    'the module is initialized and released again', 'a reference to the type is released that was never taken',
    *PY("""L.PyInit_pyhmac.restype = ctypes.py_object
T = pyhmac.sha512_context
gc.collect()
n = sys.getrefcount(T)
for i in range(3):
    m = L.PyInit_pyhmac()
    L.vt_reset()
    del m
    gc.collect()
same('references to sha512_context', sys.getrefcount(T), n)
"""))

bug('py-bytes-failure', 'C15', [(Y + 'pyhmac_sha1.c', in_py('pyhmac_sha1_calculate', '''	if( bytes_object == NULL )
	{
		PyErr_Format(
		 PyExc_IOError,
		 "%s: unable to convert SHA1 hash into bytes object.",
		 function );

		return( NULL );
	}
''', '''	if( bytes_object == NULL )
	{
		PyErr_Clear();

		return( NULL );
	}
'''))],
    'memory is short when the result is made', 'NULL is returned without an exception',
    *PY("""L.vt_fail.argtypes = [ctypes.c_char_p, ctypes.c_int]
same('digest', pyhmac.sha1_calculate(b'abc'), hashlib.sha1(b'abc').digest())
L.vt_fail(b'PyBytes_FromStringAndSize', 1)
x = attempt(pyhmac.sha1_calculate, b'abc')
L.vt_fail(b'', 0)
same('an exception', isinstance(x, Exception) and not isinstance(x, SystemError), True)
"""))


# the error and version functions
def SUP():
    sh = '#!/bin/bash\n. "$(dirname "$0")/build.sh"\n$CC -O1 -g "$D/support_driver.c" libhmac/libhmac_error.c libhmac/libhmac_support.c -o "$W/demo" || exit 3\no="$("$W/demo")" || exit 4\ncase "$o" in *FAIL*) echo "$o" | grep FAIL | head -3; exit 1;; esac\ncase "$o" in *DONE*) exit 0;; esac\nexit 5\n'
    return sh, {**STUBS, 'support_driver.c': open(V + '/native/support_driver.c').read()}


bug('error-size-16bit', 'C16', [(L + 'error.c', lambda t: sub(t, 'string,\n\t               size );', 'string,\n\t               (uint16_t) size );', -1))],
    'a string of 65536 bytes or more', 'the backtrace is cut or refused although the string has room', *SUP())

bug('error-backtrace-plain', 'C16', [(L + 'error.c', lambda t: sub(t, 'libcerror_error_backtrace_fprint(', 'libcerror_error_fprint(', None))],
    'an error with more than one message printed to a stream', 'only its first message is printed', *SUP())

bug('error-zero-count', 'C16', [(L + 'error.c', lambda t: sub(t, '\treturn( print_count );', '\tif( print_count == 0 )\n\t{\n\t\treturn( -1 );\n\t}\n\treturn( print_count );', 1))],
    'an error that prints as no characters', '-1 is returned as if printing had failed', *SUP())


# a single buffer of more than 4 GiB: a page set mapped over and over, of a size that is no power of two
BIGCH = (1 << 20) + 4096
BIGN = 4096 * BIGCH + 333


def big(alg):
    m = b'\0' * 7 + bytes(range(1, 250)) * 5000
    m = m[:BIGCH]
    h = hashlib.new(alg)
    for _ in range(4096):
        h.update(m)
    h.update(m[:333])
    return h.hexdigest()


bug('sha512-offset-32bit', 'C02', [(L + 'sha512_context.c', in_fn('libhmac_sha512_context_update', '	size_t buffer_offset                                = 0;', '	uint32_t buffer_offset                              = 0;'))],
    'one update of more than 4 GiB while data is pending', 'the position of the last bytes is computed modulo 2^32: they are taken from the wrong place',
    *C('''#include <sys/mman.h>
int memfd_create( const char *, unsigned ); int ftruncate( int, long ); long write( int, const void *, unsigned long );
int main( void ) { size_t ch = ( 1 << 20 ) + 4096, n = 4096 * ch + 333, i; uint8_t h[ 64 ], *m = malloc( ch ), *v; libhmac_sha512_context_t *c = NULL; int fd = memfd_create( "m", 0 );
for( i = 0; i < ch; i++ ) m[ i ] = i < 7 ? 0 : ( i - 7 ) %% 249 + 1;
if( fd < 0 || write( fd, m, ch ) != (long) ch ) return 0;
v = mmap( NULL, 4097 * ch, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
if( v == MAP_FAILED ) return 0;
for( i = 0; i < 4097; i++ ) if( mmap( v + i * ch, ch, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) return 0;
must( libhmac_sha512_initialize( &c, NULL ) == 1, "initialize" );
must( libhmac_sha512_update( c, v, 9, NULL ) == 1, "update" );
must( libhmac_sha512_update( c, v + 9, n - 9, NULL ) == 1, "update" );
must( libhmac_sha512_finalize( c, h, 64, NULL ) == 1, "finalize" ); same( "sha512 of 4 GiB", h, 64, "%s" ); libhmac_sha512_free( &c, NULL ); return 0; }
''' % big('sha512'), flags='-O2'))

bug('sha1-refused-finalize', 'C05', [(L + 'sha1_context.c', in_fn('libhmac_sha1_context_finalize', '''	if( hash_size > (size_t) SSIZE_MAX )
	{''', '''	internal_context->block[ internal_context->block_offset ] = 0x80;

	if( hash_size > (size_t) SSIZE_MAX )
	{''', 0)), (L + 'sha1_context.c', in_fn('libhmac_sha1_context_finalize', '''		 "%s: invalid hash value too small.",
		 function );

		return( -1 );
''', '''		 "%s: invalid hash value too small.",
		 function );

		internal_context->block_offset = 0;

		return( -1 );
''', 0))],
    'finalize with an output that is too small, then again with a larger one', 'the refused call has thrown the pending bytes away: wrong digest afterwards',
    *C('''int main( void ) { uint8_t h[ 20 ]; libhmac_sha1_context_t *c = NULL;
must( libhmac_sha1_initialize( &c, NULL ) == 1, "initialize" );
must( libhmac_sha1_update( c, (uint8_t *) "abc", 3, NULL ) == 1, "update" );
must( libhmac_sha1_finalize( c, h, 19, NULL ) == -1, "finalize with 19 bytes" );
must( libhmac_sha1_finalize( c, h, 20, NULL ) == 1, "finalize" ); same( "sha1", h, 20, "%s" ); libhmac_sha1_free( &c, NULL ); return 0; }
''' % hashlib.sha1(b'abc').hexdigest()))

bug('sha256-hmac-fill', 'C05', [(L + 'sha256.c', in_fn('libhmac_sha256_calculate_hmac', '	key_data = (uint8_t *) memory_allocate(', '''	memory_set(
	 hmac,
	 0,
	 hmac_size );

	key_data = (uint8_t *) memory_allocate(''', 0))],
    'an HMAC buffer larger than the digest', 'bytes beyond the digest are overwritten',
    *C('''int main( void ) { uint8_t h[ 64 ]; int i; memset( h, 0x77, 64 );
must( libhmac_sha256_calculate_hmac( (uint8_t *) "k", 1, (uint8_t *) "data", 4, h, 64, NULL ) == 1, "call" ); same( "hmac", h, 32, "%s" );
for( i = 32; i < 64; i++ ) must( h[ i ] == 0x77, "byte beyond the digest kept" ); return 0; }
''' % hmac.new(b'k', b'data', 'sha256').hexdigest()))

bug('sha224-clear-pointer-size', 'C07', [(L + 'sha224_context.c', in_fn('libhmac_sha224_context_finalize', '''	     internal_context,
	     0,
	     sizeof( libhmac_internal_sha224_context_t ) )''', '''	     internal_context,
	     0,
	     sizeof( internal_context ) )'''))] if 'libhmac_internal_sha224_context_t ) )' in open('/repo/libhmac/libhmac_sha224_context.c').read() else [(L + 'sha512_context.c', in_fn('libhmac_sha512_context_finalize', 'sizeof( libhmac_internal_sha512_context_t ) )', 'sizeof( internal_context ) )'))],
    'a context that has been finalized and is still allocated', 'only 8 bytes of it are cleared: the chaining words and the pending message bytes stay in memory',
    *C('''#include <malloc.h>
#define X %s
int main( void ) { uint8_t h[ 64 ], *p; intptr_t *c = NULL; size_t i, n; const char *s = "a secret message!";
must( INIT( (void *) &c, NULL ) == 1, "initialize" );
n = malloc_usable_size( c );
must( UPD( (void *) c, (uint8_t *) s, 17, NULL ) == 1, "update" );
must( FIN( (void *) c, h, 64, NULL ) == 1, "finalize" );
for( p = (uint8_t *) c, i = 0; i + 12 <= n; i++ ) must( memcmp( p + i, s, 12 ) != 0 && memcmp( p + i, s + 5, 12 ) != 0, "the message is erased" );
FRE( (void *) &c, NULL ); return 0; }
'''.replace('INIT', 'libhmac_%s_initialize').replace('UPD', 'libhmac_%s_update').replace('FIN', 'libhmac_%s_finalize').replace('FRE', 'libhmac_%s_free') .replace('%s', 'sha224' if 'libhmac_internal_sha224_context_t ) )' in open('/repo/libhmac/libhmac_sha224_context.c').read() else 'sha512'), flags='-O1'))

bug('md5-shared-padding', 'C08', [(L + 'md5_context.c', in_fn('libhmac_md5_context_finalize', '	uint64_t bit_size                                = 0;', '	static uint64_t bit_size                         = 0;')), (L + 'md5_context.c', in_fn('libhmac_md5_context_finalize', 'bit_size = ( internal_context->hash_count + internal_context->block_offset ) * 8;', 'bit_size  = ( internal_context->hash_count + internal_context->block_offset );\n	bit_size *= 8;'))],
    'two threads that finalize different contexts at the same time', 'the message length of one context ends up in the digest of the other',
    *C('''#include <pthread.h>
static volatile int bad = 0;
static void *run( void *a ) { size_t n = (size_t) a, i; uint8_t m[ 64 ], h[ 16 ], w[ 16 ]; memset( m, 'x', 64 );
libhmac_md5_calculate( m, n, w, 16, NULL );
for( i = 0; i < 6000000 && !bad; i++ ) { libhmac_md5_context_t *c = NULL; libhmac_md5_initialize( &c, NULL ); libhmac_md5_update( c, m, n, NULL ); libhmac_md5_finalize( c, h, 16, NULL ); libhmac_md5_free( &c, NULL ); if( memcmp( h, w, 16 ) != 0 ) bad = 1; }
return NULL; }
int main( void ) { pthread_t t[ 6 ]; size_t i; for( i = 0; i < 6; i++ ) pthread_create( &t[ i ], NULL, run, (void *) ( i * 3 + 1 ) ); for( i = 0; i < 6; i++ ) pthread_join( t[ i ], NULL );
must( !bad, "the digests of the threads" ); return 0; }
''', flags='-O0', libs='-lpthread'))

bug('py-shared-digest', 'C15', [(Y + 'pyhmac_sha512.c', in_py('pyhmac_sha512_calculate_hmac', '	uint8_t sha512_hmac[', '	static uint8_t sha512_hmac['))],
    'two threads calculate at the same time', 'one thread gets the digest of the other, the buffer is written while the interpreter lock is not held',
    *PY("""import threading
bad = []
sys.setswitchinterval(1e-5)
def work(k):
    m = k * 300000
    w = hmac.new(k, m, 'sha512').digest()
    for i in range(400):
        if bad or pyhmac.sha512_calculate_hmac(k, m) != w:
            bad.append(k)
            return
ts = [threading.Thread(target=work, args=(bytes([65 + i]),)) for i in range(4)]
for t in ts: t.start()
for t in ts: t.join()
same('threads', bad, [])
"""))

bug('sha512-tail-overread', 'C04', [(L + 'sha512_context.c', in_fn('libhmac_sha512_context_update', '''		     internal_context->block,
		     &( buffer[ buffer_offset ] ),
		     size ) == NULL )''', '''		     internal_context->block,
		     &( buffer[ buffer_offset ] ),
		     LIBHMAC_SHA512_BLOCK_SIZE ) == NULL )'''))],
    'a message that is no multiple of the block size, at the end of its memory', 'a whole block is read where only a part of one is left (the digest is right)',
    *C('''int main( void ) { uint8_t h[ 64 ]; uint8_t *m = malloc( 130 ); memset( m, 'a', 130 );
must( libhmac_sha512_calculate( m, 130, h, 64, NULL ) == 1, "call" ); same( "sha512 of 130", h, 64, "%s" ); return 0; }
''' % hashlib.sha512(b'a' * 130).hexdigest()))

bug('md5-hmac-key-overread', 'C04', [(L + 'md5.c', in_fn('libhmac_md5_calculate_hmac', '''		     key_data,
		     key,
		     key_size ) == NULL )''', '''		     key_data,
		     key,
		     block_size ) == NULL )''', 0))],
    'a key shorter than a block, at the end of its memory', 'a whole block of key is read, the part beyond the key cleared again (the HMAC is right)',
    *C('''int main( void ) { uint8_t h[ 16 ]; uint8_t *k = malloc( 20 ); memset( k, 'k', 20 );
must( libhmac_md5_calculate_hmac( k, 20, (uint8_t *) "abc", 3, h, 16, NULL ) == 1, "call" ); same( "hmac", h, 16, "%s" ); return 0; }
''' % hmac.new(b'k' * 20, b'abc', 'md5').hexdigest()))

bug('sha256-evp-init-leak', 'C06', [(L + 'sha256_context.c', in_fn('libhmac_sha256_context_initialize', '''#else
		EVP_MD_CTX_free(
		 internal_context->evp_md_context );
#endif
''', '''#endif
'''))],
    'a build against OpenSSL EVP, where EVP_DigestInit_ex fails', 'the OpenSSL context is not released',
    *C('''#include <openssl/evp.h>
static int open_contexts;
EVP_MD_CTX *__real_EVP_MD_CTX_new( void );
void __real_EVP_MD_CTX_free( EVP_MD_CTX * );
EVP_MD_CTX *__wrap_EVP_MD_CTX_new( void ) { open_contexts++; return __real_EVP_MD_CTX_new(); }
void __wrap_EVP_MD_CTX_free( EVP_MD_CTX *c ) { if( c != NULL ) open_contexts--; __real_EVP_MD_CTX_free( c ); }
int __wrap_EVP_DigestInit_ex( void *c, void *t, void *e ) { return 0; }
int __wrap_EVP_DigestInit_ex2( void *c, void *t, void *e ) { return 0; }
int main( void ) { libhmac_sha256_context_t *c = NULL;
must( libhmac_sha256_initialize( &c, NULL ) == -1, "initialize fails" );
must( c == NULL, "no context" ); must( open_contexts == 0, "the OpenSSL context is released" ); return 0; }
''', flags='-O1 -DVT_EVP -Wl,--wrap=EVP_MD_CTX_new,--wrap=EVP_MD_CTX_free,--wrap=EVP_DigestInit_ex,--wrap=EVP_DigestInit_ex2', libs='-lcrypto'))

bug('sha1-evp-update-32bit', 'C09', [(L + 'sha1_context.c', lambda t: sub(t, '''	     internal_context->evp_md_context,
	     (const void *) buffer,
	     size ) != 1 )''', '''	     internal_context->evp_md_context,
	     (const void *) buffer,
	     (unsigned int) size ) != 1 )''', None))],
    'a build against OpenSSL EVP and more than 4 GiB in one update', 'only the size modulo 2^32 is hashed',
    *C('''#include <sys/mman.h>
int main( void ) { uint8_t h[ 20 ]; size_t n = ( (size_t) 1 << 32 ) + 5;
uint8_t *m = mmap( NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
must( m != MAP_FAILED, "mmap" );
must( libhmac_sha1_calculate( m, n, h, 20, NULL ) == 1, "call" ); same( "sha1 of 4 GiB + 5", h, 20, "%s" ); return 0; }
''' % zeros('sha1', (1 << 32) + 5), flags='-O1 -DVT_EVP', libs='-lcrypto'))

bug('sha256-shared-context', 'C08', [(L + 'sha256.c', in_fn('libhmac_sha256_calculate', '	libhmac_sha256_context_t *context = NULL;\n', '	static libhmac_sha256_context_t *context = NULL;\n'))],
    'two threads calculate at the same time', 'the context is shared: wrong digests, refused calls or a crash',
    *C('''#include <pthread.h>
static int bad;
static void *work( void *p ) { uint8_t h[ 32 ]; int i;
for( i = 0; i < 200000 && !bad; i++ ) { memset( h, 0, 32 );
if( libhmac_sha256_calculate( (uint8_t *) "abc", 3, h, 32, NULL ) != 1 || h[ 0 ] != 0xba || h[ 31 ] != 0xad ) bad = 1; }
return NULL; }
int main( void ) { pthread_t t[ 4 ]; int i;
for( i = 0; i < 4; i++ ) pthread_create( t + i, NULL, work, NULL );
for( i = 0; i < 4; i++ ) pthread_join( t[ i ], NULL );
must( !bad, "each thread gets its digest" ); return 0; }
''', flags='-O1', libs='-lpthread'))

K4 = (1 << 32) + 5
def zkey(alg, n, data):
    return hmac.new(bytes.fromhex(zeros(alg, n)), data, alg).hexdigest()
bug('sha512-hmac-key-32bit', 'C03', [(L + 'sha512.c', in_fn('libhmac_sha512_calculate_hmac', '''		     key,
		     key_size,
''', '''		     key,
		     (uint32_t) key_size,
''', -1))],
    'a key of more than 4 GiB', 'only the first bytes of the key are hashed',
    *C('''#include <sys/mman.h>
int main( void ) { uint8_t h[ 64 ]; size_t n = ( (size_t) 1 << 32 ) + 5;
uint8_t *k = mmap( NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
must( k != MAP_FAILED, "mmap" );
must( libhmac_sha512_calculate_hmac( k, n, (uint8_t *) "abc", 3, h, 64, NULL ) == 1, "call" ); same( "key of 4 GiB + 5", h, 64, "%s" ); return 0; }
''' % zkey('sha512', K4, b'abc'), flags='-O2'))
