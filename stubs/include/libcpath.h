#if !defined( VT_LIBCPATH_H )
#define VT_LIBCPATH_H
#endif
