#if !defined( VT_LIBUNA_H )
#define VT_LIBUNA_H
#endif
