"""Writes properties.jsonl and MANIFEST.json (committed; rerun when a property changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALG = ('md5', 'sha1', 'sha224', 'sha256', 'sha512')
CTX = ['libhmac/libhmac_%s_context.c' % a for a in ALG]
WRAP = ['libhmac/libhmac_%s.c' % a for a in ALG]


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))


CS = [('byte count, block offset, pending block, chaining words', 'what a context has absorbed: full blocks are in the chaining words, the rest is pending in the block buffer', 'libhmac/libhmac_*_context.h')]
props = [
 P('C01', 'Digests are the standard MD5, SHA-1, SHA-224, SHA-256 and SHA-512 digests',
   'For every message, the one-shot digest functions and the initialize/update/finalize sequence return exactly the digest RFC 1321 (MD5) and FIPS 180-4 (SHA-1, SHA-224, SHA-256, SHA-512) define. This holds for every length, including the empty message, every padding boundary and lengths whose bit count does not fit in 32 bits.',
   ['inputs'], 'all messages of all lengths (below 2^61 bytes), all five algorithms, built-in implementation',
   'The test program compares a handful of fixed vectors and the reliable baseline test does not run any digest; padding, carry and length-encoding errors show only at particular lengths.',
   CTX + WRAP, [('compression function', 'libhmac_*_context_transform'), ('padding and length', 'libhmac_*_context_finalize'), ('buffering', 'libhmac_*_context_update')], ['libhmac_md5_calculate and its siblings', 'libhmac_md5_finalize and its siblings'], CS),
 P('C02', 'A digest does not depend on how the message was split into updates',
   'For every message and every way of dividing it into consecutive update calls (of any sizes, including empty ones), the digest is that of the whole message. Between calls the context represents exactly the concatenation of what it was given, in order, each byte once.',
   ['inputs', 'histories'], 'all finite sequences of update calls with buffers of all sizes, from every reachable context state, built-in implementation and both OpenSSL back ends',
   'Tests make one or two update calls with fixed sizes; the state space of (pending bytes, size of the next buffer) is not sampled.',
   CTX + WRAP, [('pending block', 'libhmac_*_context_update')], ['libhmac_md5_update and its siblings'], CS),
 P('C03', 'HMACs are the RFC 2104 HMACs for every key and message',
   'For every key and every message the HMAC functions return the value RFC 2104 defines over the corresponding digest: keys up to one block are zero padded, longer keys are replaced by their digest. This holds for key sizes at, below and above the block size and for messages of every size.',
   ['inputs'], 'all keys of all sizes, all messages of all sizes, all five algorithms',
   'The RFC 4231 style vectors sample a few key lengths; key sizes around the block size and the digest size behave differently.',
   WRAP, [('inner and outer padding', 'libhmac_*_calculate_hmac')], ['libhmac_md5_calculate_hmac and its siblings']),
 P('C04', 'Library calls are memory safe, free of undefined behaviour and terminate',
   'For all arguments and context states a caller can produce, the digest, HMAC and context functions read and write only inside the buffers given to them, their own context and their own allocations, do not use uninitialised or released memory, do not invoke undefined behaviour, and return.',
   ['inputs', 'histories', 'fault_sequences'], 'all argument values (including NULL, zero and maximal sizes), all reachable contexts, every point where an allocation or the OpenSSL back end can fail',
   'Out-of-bounds accesses and undefined shifts need not change a result, and boundary sizes are not sampled.',
   CTX + WRAP, [('bounds checks on sizes and offsets', 'libhmac_*_context_*, libhmac_*_calculate_hmac')], ['all public functions of libhmac_md5.h and its siblings'], CS),
 P('C05', 'Arguments are validated exactly and refused calls have no effect',
   'Every library call with an invalid argument (missing object, buffer or output, a size above the platform maximum, an output smaller than the digest, an already set object) returns -1 with an error set and leaves the object and the output untouched. Every call with valid arguments succeeds with 1, sets no error, and writes exactly the digest-size bytes of the output.',
   ['inputs'], 'all combinations of argument values, for initialize, update, finalize, free and the one-shot digest and HMAC functions of the five algorithms, built-in and OpenSSL back ends',
   'Tests try a few NULL arguments with one size each; off-by-one limits on sizes are not probed at both sides, nor are untouched outputs checked.',
   CTX + WRAP, [('argument checks', 'the first statements of every function')], ['return value, *error, object and output buffer']),
 P('C06', 'Nothing leaks and every allocation or back-end failure is reported',
   'Whichever allocation or cryptographic back-end call fails, the call returns -1 with an error set, everything it allocated or opened is released exactly once, and no partially built object is handed to the caller. Freeing releases everything an object owns, resets the reference, and does nothing for an empty reference.',
   ['fault_sequences', 'inputs'], 'every sequence of success and failure of the allocations and OpenSSL calls a function makes, all five algorithms',
   'The memory-failure tests are compiled only with a special hook and fail one allocation at a time for one input; the OpenSSL error paths are never run.',
   CTX + WRAP, [('on_error paths', 'libhmac_*_calculate_hmac, libhmac_*_initialize, libhmac_*_context_initialize')], ['heap, return value, *error']),
 P('C07', 'Key and message material is erased from working memory',
   'When a library call returns or releases memory, no stack array or heap block it used still holds the key, data derived from the key, message schedule or intermediate digest state: it has been overwritten. This includes objects that are freed without having been finalized, long keys, and error paths.',
   ['inputs', 'fault_sequences', 'histories'], 'all keys and messages, all return paths including failures; built-in implementation as compiled without optimisation',
   'No test looks at released or dead memory.',
   CTX + WRAP, [('memory_set before return and memory_free', 'libhmac_*_context_transform, _finalize, _free, libhmac_*_calculate_hmac')], ['contents of local arrays at return, of heap blocks at release']),
 P('C08', 'Contexts are isolated: a call affects only its own object and output',
   'A call on one context writes nothing but that context, its stated output buffer and the error it reports; inputs are never modified and the library keeps no mutable shared state. Hence interleaved, reordered or concurrent use of different contexts gives each the result it would have alone.',
   ['histories', 'schedules', 'inputs'], 'all interleavings of calls on any number of distinct contexts, and concurrent use of distinct contexts from several threads',
   'Tests use one context at a time; a hidden static buffer is invisible to them.',
   CTX + WRAP, [('all state lives in the context', 'libhmac_*_context.h')], ['globals, other contexts, input buffers'], CS),
 P('C09', 'All build configurations compute the same digests',
   'The build-time alternatives (built-in implementation with or without unrolled loops, OpenSSL EVP with or without the _ex2 entry points, OpenSSL MD5/SHA low-level functions) are interchangeable: for the same calls they return the same digests and HMACs. Each back end is used according to its protocol (initialised once, not used after finalization until reinitialised).',
   ['configurations', 'inputs'], 'all configurations named, all messages, keys and update sequences',
   'The test build compiles one configuration only.',
   CTX, [('conditional compilation', 'HAVE_LIBCRYPTO, HAVE_OPENSSL_EVP_*, LIBHMAC_UNFOLLED_LOOPS in libhmac/libhmac_*_context.c')], ['digests under each configuration']),
]
NA = []
PENDING = {}
exec(open(os.path.join(V, 'tools', 'more_props.py')).read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks = []
for p in props:
    if p['id'] in PENDING:
        NA.append(dict(property=p['id'], reason=PENDING[p['id']]))
        continue
    if any(n['property'] == p['id'] for n in NA):
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt -m vt.check ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt -m vt.check ' + p['id'],
                       technique='contract-based deductive verification: function contracts and loop invariants over the LLVM IR of the real source, obligations discharged by z3',
                       level='proof', level_note=NOTE.get(p['id'], NOTE['*'])))
m = dict(version=1, setup_cmd='python3-vt -m vt.selftest', checks=checks, not_applicable=NA,
         notes='Each check compiles the functions of /repo to LLVM IR (clang -O0, mem2reg) on every run and verifies them against contracts in /verif/vt. Obligations it cannot decide fall back to a labelled bounded replay on the compiled code. known_findings.json lists repaired and recorded defects.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
