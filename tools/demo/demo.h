#include <common.h>
#include <types.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libhmac_md5.h"
#include "libhmac_sha1.h"
#include "libhmac_sha224.h"
#include "libhmac_sha256.h"
#include "libhmac_sha512.h"
#include "libhmac_md5_context.h"
#include "libhmac_sha1_context.h"
#include "libhmac_sha224_context.h"
#include "libhmac_sha256_context.h"
#include "libhmac_sha512_context.h"
static const char *hex( const uint8_t *p, size_t n )
{
	static char s[ 300 ];
	size_t i;
	for( i = 0; i < n; i++ ) sprintf( s + 2 * i, "%02x", p[ i ] );
	s[ 2 * n ] = 0;
	return s;
}
static void same( const char *what, const uint8_t *got, size_t n, const char *want )
{
	if( strcmp( hex( got, n ), want ) != 0 )
	{
		printf( "%s: got %s, want %s\n", what, hex( got, n ), want );
		exit( 1 );
	}
}
static void must( int cond, const char *what )
{
	if( !cond ) { printf( "failed: %s\n", what ); exit( 1 ); }
}
