/* Linked into the module under test: counts, checks and makes fail what pyhmac and libhmac call. Driven by native/pyhmac_driver.py. */
#include <Python.h>
#include <stdlib.h>
#include <stdint.h>
#include <libcerror.h>

extern int vt_live_errors;
extern const char *vt_backtrace;
static char backtrace[ 10000 ];
void vt_set_backtrace( const char *t ) { snprintf( backtrace, sizeof( backtrace ), "%s", t ); vt_backtrace = backtrace; }
static const char *target = "";
static int nth = 0, seen = 0;
long vt_live = 0, vt_none = 0, vt_gil = 0, vt_inits = 0, vt_frees = 0;
PyObject *vt_module = NULL;
static char name[ 64 ];

void vt_fail( const char *what, int n )
{
	snprintf( name, sizeof( name ), "%s", what );
	target = name;
	nth    = n;
	seen   = 0;
}
int vt_seen( void ) { return seen; }
long vt_count( int k )
{
	return k == 0 ? vt_live : k == 1 ? vt_none : k == 2 ? vt_gil : k == 3 ? vt_live_errors : k == 4 ? ( vt_module == NULL ? -1 : (long) Py_REFCNT( vt_module ) ) : -1;
}
void vt_reset( void ) { vt_none = 0; Py_CLEAR( vt_module ); }
static int hit( const char *f )
{
	if( strcmp( f, target ) != 0 )
	{
		return 0;
	}
	seen++;
	return seen == nth;
}
static void gil( void )
{
	if( PyGILState_Check() == 0 )
	{
		/* Nothing of the interpreter may be touched */
		fprintf( stderr, "vt: the interpreter is used without the GIL\n" );
		_Exit( 97 );
	}
}

/* libhmac */
void *__real_malloc( size_t );
void __real_free( void * );
void *__wrap_malloc( size_t n )
{
	void *p = hit( "malloc" ) ? NULL : __real_malloc( n );
	if( p != NULL )
	{
		__atomic_add_fetch( &vt_live, 1, __ATOMIC_SEQ_CST );
	}
	return p;
}
void __wrap_free( void *p )
{
	if( p != NULL )
	{
		__atomic_sub_fetch( &vt_live, 1, __ATOMIC_SEQ_CST );
	}
	__real_free( p );
}
#define LIB( f, decl, args ) \
	int __real_##f decl; \
	int __wrap_##f decl { if( hit( #f ) ) { libcerror_error_set( error, 1, 1, "vt" ); return -1; } return __real_##f args; }
#define ALG( a ) \
	LIB( libhmac_##a##_initialize, ( void **c, libcerror_error_t **error ), ( c, error ) ) \
	LIB( libhmac_##a##_update, ( void *c, const uint8_t *b, size_t n, libcerror_error_t **error ), ( c, b, n, error ) ) \
	LIB( libhmac_##a##_finalize, ( void *c, uint8_t *h, size_t n, libcerror_error_t **error ), ( c, h, n, error ) ) \
	LIB( libhmac_##a##_calculate, ( const uint8_t *b, size_t n, uint8_t *h, size_t m, libcerror_error_t **error ), ( b, n, h, m, error ) ) \
	LIB( libhmac_##a##_calculate_hmac, ( const uint8_t *k, size_t l, const uint8_t *b, size_t n, uint8_t *h, size_t m, libcerror_error_t **error ), ( k, l, b, n, h, m, error ) )
ALG( md5 )
ALG( sha1 )
ALG( sha224 )
ALG( sha256 )
ALG( sha512 )

/* The interpreter */
#define OBJ( f, decl, args ) \
	PyObject *__real_##f decl; \
	PyObject *__wrap_##f decl { gil(); if( hit( #f ) ) { PyErr_SetString( PyExc_MemoryError, "vt" ); return NULL; } return __real_##f args; }
OBJ( PyBytes_FromStringAndSize, ( const char *s, Py_ssize_t n ), ( s, n ) )
OBJ( PyObject_Repr, ( PyObject *o ), ( o ) )
OBJ( PyObject_Str, ( PyObject *o ), ( o ) )
OBJ( PyUnicode_AsUTF8String, ( PyObject *o ), ( o ) )
OBJ( PyUnicode_DecodeUTF8, ( const char *s, Py_ssize_t n, const char *e ), ( s, n, e ) )
OBJ( _PyObject_New, ( PyTypeObject *t ), ( t ) )
PyObject *__real_PyModule_Create2( PyModuleDef *d, int v );
PyObject *__wrap_PyModule_Create2( PyModuleDef *d, int v )
{
	PyObject *m;
	gil();
	if( hit( "PyModule_Create2" ) ) { PyErr_SetString( PyExc_MemoryError, "vt" ); return NULL; }
	m = __real_PyModule_Create2( d, v );
	Py_XINCREF( m );
	Py_XSETREF( vt_module, m );
	return m;
}
#define INT( f, decl, args ) \
	int __real_##f decl; \
	int __wrap_##f decl { gil(); if( hit( #f ) ) { PyErr_SetString( PyExc_MemoryError, "vt" ); return -1; } return __real_##f args; }
INT( PyModule_AddObject, ( PyObject *m, const char *n, PyObject *o ), ( m, n, o ) )
INT( PyModule_AddObjectRef, ( PyObject *m, const char *n, PyObject *o ), ( m, n, o ) )
INT( PyModule_AddType, ( PyObject *m, PyTypeObject *t ), ( m, t ) )
INT( PyType_Ready, ( PyTypeObject *t ), ( t ) )
INT( PyObject_IsInstance, ( PyObject *o, PyObject *t ), ( o, t ) )
char *__real_PyBytes_AsString( PyObject *o );
char *__wrap_PyBytes_AsString( PyObject *o ) { gil(); return __real_PyBytes_AsString( o ); }
Py_ssize_t __real_PyBytes_Size( PyObject *o );
Py_ssize_t __wrap_PyBytes_Size( PyObject *o ) { gil(); return __real_PyBytes_Size( o ); }
void __real_PyErr_Clear( void );
void __wrap_PyErr_Clear( void ) { gil(); __real_PyErr_Clear(); }
void __real_Py_IncRef( PyObject *o );
void __real_Py_DecRef( PyObject *o );
void __wrap_Py_IncRef( PyObject *o ) { gil(); vt_none += o == Py_None; __real_Py_IncRef( o ); }
void __wrap_Py_DecRef( PyObject *o ) { gil(); vt_none -= o == Py_None; __real_Py_DecRef( o ); }
PyObject *__real_PyErr_Format( PyObject *, const char *, ... );
PyObject *__wrap_PyErr_Format( PyObject *x, const char *f, ... )
{
	va_list v;
	gil();
	va_start( v, f );
	PyErr_FormatV( x, f, v );
	va_end( v );
	return NULL;
}

/* The functions that raise exceptions, also those that nothing calls */
void pyhmac_error_fetch( libcerror_error_t **, int, int, const char *, ... ) __attribute__(( weak ));
void pyhmac_error_fetch_and_raise( PyObject *, const char *, ... ) __attribute__(( weak ));
void pyhmac_error_raise( libcerror_error_t *, PyObject *, const char *, ... ) __attribute__(( weak ));

/* Returns 0 (nothing is set), 1 (an exception), 2 (an error), 3 (both) or -1 (references are kept) */
int vt_raise( int form, int exception, PyObject *value, const char *format, const char *argument )
{
	libcerror_error_t *error = NULL;
	Py_ssize_t before        = Py_REFCNT( value );
	int r                    = 0;

	if( exception )
	{
		PyErr_SetObject( (PyObject *) Py_TYPE( value ), value );
	}
	if( form == 0 && pyhmac_error_fetch != NULL )
	{
		pyhmac_error_fetch( &error, 1, 2, format, argument );
	}
	else if( form == 1 && pyhmac_error_fetch_and_raise != NULL )
	{
		pyhmac_error_fetch_and_raise( PyExc_ValueError, format, argument );
	}
	else if( ( form == 2 || form == 3 ) && pyhmac_error_raise != NULL )
	{
		if( form == 3 )
		{
			libcerror_error_set( &error, 1, 1, "vt" );
		}
		pyhmac_error_raise( error, PyExc_ValueError, format, argument );
	}
	else
	{
		PyErr_Clear();
		return -2;
	}
	r = ( PyErr_Occurred() != NULL ) + ( error != NULL && form == 0 ? 2 : 0 );
	PyErr_Clear();
	libcerror_error_free( &error );
	if( Py_REFCNT( value ) != before )
	{
		return -1;
	}
	return r;
}
