NOTE = {'*': 'All obligations for all inputs; assumed: contracts of libc, libcerror and OpenSSL, the clang front end, the VC generator in vt/ and z3.'}
for _i in ('C10', 'C11', 'C12', 'C13', 'C14'):
    NOTE[_i] = 'All obligations for all inputs; assumed: contracts of libcfile, libcsplit, libclocale, stdio, libc and libcerror (the libyal dependencies are not in the tree), the clang front end, the VC generator in vt/ and z3.'
NOTE['C16'] = 'All obligations for all inputs; assumed: contracts of libcerror, the clang front end, the VC generator in vt/ and z3.'
NOTE['C15'] = 'All obligations for all inputs; assumed: contracts of the CPython C API, libc and libcerror, the clang front end, the VC generator in vt/ and z3.'
HT = 'hmactools/'
props += [
 P('C10', 'Digests are shown as lower-case hexadecimal text of exactly the digest bytes',
   'digest_hash_copy_to_string writes, for every digest of every size, two lower-case hexadecimal digits per byte, high nibble first, in order, followed by an end-of-string character, and nothing beyond it. It returns 1 exactly if the string has room for 2 * size + 1 characters; otherwise, or with a missing digest or string, it returns -1 with an error.',
   ['inputs'], 'all digests of all sizes, all string sizes',
   'The repository test looks at one digest and one string size; a wrong digit shows only for particular byte values and an off-by-one only at the exact size.',
   [HT + 'digest_hash.c'], [('digit conversion', 'digest_hash_copy_to_string')], ['return value, string']),
 P('C11', 'hmacsum prints the digests of exactly the whole input, or fails',
   'For every input content and size, process buffer size, sequence of (short) reads and failure: sum_handle_process_input returns 1 only if every byte of the input (of the size the file reports) was given once and in order to every enabled digest, or the handle was told to abort; the stored text of each enabled digest is then the hexadecimal digest of the data read. It never requests more than the process buffer size at once, nor data past the end of the input. An input that ends early, a failing read, allocation or digest call is reported as -1 with an error. sum_handle_hash_values_fprint prints one labelled line for each enabled digest, in the order MD5, SHA1, SHA224, SHA256, SHA512. The handle owns its contexts, strings and input file: creating, using, failing and freeing it leaks nothing, releases nothing twice, and refused calls leave it unchanged.',
   ['inputs', 'histories', 'fault_sequences'], 'all contents, sizes, buffer sizes, lengths of each read, aborts at any read, and failures of any allocation or dependency',
   'The tests never process an input; short reads, early end of data and failure paths need a faulting file layer.',
   [HT + 'sum_handle.c', HT + 'sum_handle.h'], [('read loop', 'sum_handle_process_input'), ('fan-out to the digests', 'sum_handle_*_integrity_hash'), ('ownership', 'sum_handle_initialize, sum_handle_free')],
   ['return value, printed lines, heap, requests to libcfile'], [('process count', 'bytes of the input already given to the digests', 'sum_handle_process_input')]),
 P('C12', 'Digest type lists enable exactly the digests they name',
   'sum_handle_set_digest_types splits the string at commas and enables exactly the digests named: MD5 by md5 or MD5; SHA-1, SHA-224, SHA-256 and SHA-512 by sha or SHA, then nothing, - or _, then 1, 224, 256 or 512. Enabling adds to what is enabled (MD5 is by default); names that are none of these are ignored. For each enabled digest there is a string to hold its text. It returns 1 on success and -1 with an error if splitting or an allocation fails, and then nothing is leaked.',
   ['inputs', 'fault_sequences'], 'all strings, any number of names, all names, all prior sets of enabled digests, failures of any allocation or dependency',
   'There are dozens of compared characters over five sizes of names; tests try a few names and never mixed lists or near misses.',
   [HT + 'sum_handle.c'], [('name comparison', 'sum_handle_set_digest_types')], ['return value, enabled digests, heap']),
 P('C13', 'Byte size strings have exactly the value they spell, or are refused',
   'byte_size_string_convert reads decimal digits (none: 0), an optional fraction (decimal point of the locale and digits, of which two count as hundredths), at most one space, an optional factor letter k m g t p e z y in either case (f = 1 to 8), and a unit: end of string or iB for powers of 1024 (u), B for powers of 1000; what follows the unit is ignored. The value is D * u^f, or with a factor and a non-zero fraction r in hundredths, (D * u + 10 * r) * u^(f-1); a fraction without factor is ignored. It returns 1 with that value exactly if the unit is one of these and the value fits in 64 bits; otherwise it returns -1 with an error and leaves the size unchanged. sum_handle_set_process_buffer_size takes that value if it is at most SSIZE_MAX, returns 0 and changes nothing if it is larger, and -1 if the string is refused.',
   ['inputs'], 'all strings of all lengths, all decimal points',
   'Overflow limits differ for each factor, unit and fraction; tests convert one or two strings.',
   [HT + 'byte_size_string.c', HT + 'sum_handle.c'], [('digits, fraction, factor, unit', 'byte_size_string_convert'), ('limit', 'sum_handle_set_process_buffer_size')], ['return value, *size']),
 P('C14', 'hmacsum does exactly what the command line asks, or fails, or aborts',
   'For every command line, every failure of what it calls and an interrupt (SIGINT) at any moment: -h and -V print to standard output, process nothing and exit with status 0; an option that is not one of -d, -p, -h, -v, -V or lacks its argument, or a missing source, gives a non-zero status and processes nothing. Otherwise the first operand is opened, processed and closed once, with the digest types of the last -d (MD5 without it) and the process buffer size of the last -p (32768 if there is none or it is too large), verbose if and only if -v is given. Digests are printed to standard output, once, only when the whole input was processed, and the exit status is 0 only then; any failure and an abort give a non-zero status. The interrupt sets the abort flag and tells the handle to abort if there is one; the handler never uses a handle that is being or has been released, and the handle is always released. Where the platform has no getopt, the replacement reads options and operands as POSIX getopt does and stays within the arguments.',
   ['inputs', 'schedules', 'fault_sequences'], 'all command lines of any length, failures of any call, the signal before any call or read of the abort flag while the handler is attached',
   'The tests never run the program; the moment of the interrupt and the failing call cannot be sampled.',
   [HT + 'hmacsum.c', HT + 'hmactools_getopt.c', HT + 'hmactools_signal.c', HT + 'hmactools_output.c'], [('command line, processing, status', 'main'), ('interrupt', 'hmacsum_signal_handler, hmactools_signal_attach, hmactools_signal_detach'), ('options without getopt', 'hmactools_getopt')],
   ['exit status, printed text, calls of the sum handle, heap']),
P('C15', 'The Python module gives the same digests, refuses non-bytes and keeps nothing',
   'For every algorithm, argument and failure of what is called: pyhmac.X_calculate(data) and X_calculate_hmac(key, data), by position or keyword, return a new bytes object with exactly the digest or HMAC of the whole of the bytes given; X_context() with update(data) any number of times and finalize() does the same for one digest; get_version() returns the version of the library. A key or data that is not bytes, a failure of libhmac, of an allocation or of the interpreter raises an exception, and a result is returned only with no exception set. Each call releases every reference it takes, but for the one returned, every libhmac context and error; a context object has at most one libhmac context, also if initialized again, and its release frees it and raises nothing, also if it was never initialized. The interpreter is only used with the GIL held, which is held again on return. Importing the module makes all five types and their functions available under their names, or raises and leaves nothing.',
   ['inputs', 'histories', 'fault_sequences'], 'all arguments (any object), all sizes, failures of any call of the interpreter, libhmac or allocation',
   'The tests call the module with a few strings; reference counts, pending exceptions and the GIL are not visible in results, and failure paths need a faulting interpreter.',
   ['pyhmac/'], [('functions of the module', 'pyhmac_*_calculate, pyhmac_*_calculate_hmac'), ('context objects', 'pyhmac_*_context_*'), ('exceptions', 'pyhmac_error_*'), ('module', 'PyInit_pyhmac')],
   ['results, exceptions, reference counts, heap']),
 P('C16', 'Errors and the version are reported exactly as they are',
   'libhmac_error_free, _fprint, _sprint, _backtrace_fprint and _backtrace_sprint act on exactly the error, stream, string and size they are given: they hand them to the libcerror function of the same name, once, and return what it returns, for every error, size and result. libhmac_get_version returns a string that stays valid and is the version the headers state (LIBHMAC_VERSION_STRING).',
   ['inputs'], 'all errors, streams, strings, sizes and results',
   'The tests look at one error and one size; a size or result that is truncated or a function mixed up shows only for others.',
   ['libhmac/libhmac_error.c', 'libhmac/libhmac_support.c'], [('error functions', 'libhmac_error_*'), ('version', 'libhmac_get_version')], ['return value, calls of libcerror']),
]
